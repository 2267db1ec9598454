// Between the reference JSON model and rexjson::value.
#ifndef VERIF_JCPP_H
#define VERIF_JCPP_H
#include "jref.h"
#include <stdexcept>
#include "rexjson++.h"
namespace jcpp {
inline jref::V view(const rexjson::value &v)
{
	jref::V r;
	switch (v.get_type()) {
	case rexjson::null_type: r.t = jref::Null; break;
	case rexjson::bool_type: r.t = jref::Bool; r.b = v.get_bool(); break;
	case rexjson::int_type: r.t = jref::Int; r.i = v.get_int64(); break;
	case rexjson::real_type: r.t = jref::Real; r.d = v.get_real(); break;
	case rexjson::str_type: r.t = jref::Str; r.s = v.get_str(); break;
	case rexjson::array_type: r.t = jref::Arr; for (auto &x : v.get_array()) r.a.push_back(view(x)); break;
	case rexjson::obj_type: r.t = jref::Obj; for (auto &x : v.get_obj()) r.o[x.first] = view(x.second); break;
	}
	return r;
}
// strings are handed over in JSON notation
inline std::string notation(const std::string &s)
{
	std::string r;
	for (char c : s) { if (c == '\\') r += '\\'; r += c; }
	return r;
}
inline rexjson::value make(const jref::V &v)
{
	switch (v.t) {
	case jref::Null: return rexjson::value();
	case jref::Bool: return rexjson::value(v.b);
	case jref::Int: return rexjson::value((long)v.i);
	case jref::Real: return rexjson::value(v.d);
	case jref::Str: return rexjson::value(notation(v.s));
	case jref::Arr: { rexjson::array a; for (auto &x : v.a) a.push_back(make(x)); return rexjson::value(a); }
	case jref::Obj: { rexjson::object o; for (auto &x : v.o) o[x.first] = make(x.second); return rexjson::value(o); }
	}
	return rexjson::value();
}
}
#endif
