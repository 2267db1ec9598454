// libs: rlib
// objects: rexjsonpp
#include "pbt.h"
#include "jcpp.h"
#include <array>
#include <tuple>
#include "rexjsonrpc/rpcserver.h"
using namespace pbt;
using jref::V;

// ---- the methods served ----
static int f_add(int a, int b) { return (int)((unsigned)a + (unsigned)b); }
static std::string f_cat(std::string a, std::string b) { return a + "|" + b; }
static int f_sub(int a, int b) { return (int)((unsigned)a - (unsigned)b); }
static std::string f_join(std::string a, std::string b) { return b + "/" + a; }
static int64_t f_next(int64_t a) { return (int64_t)((uint64_t)a + 1); }
static double f_scale(double a, int b) { return a * b; }
static bool f_not(bool a) { return !a; }
static int64_t f_big(int64_t a) { return ~a; }
static int f_none() { return 42; }
static int64_t g_set;
static void f_set(int64_t a) { g_set = a; }
static unsigned f_uns(unsigned a) { return a; }
static int f_throw(std::string m) { throw std::runtime_error(m); }
struct Obj {
	int k = 7;
	int mul(int a) { return (int)((unsigned)a * (unsigned)k); }
	std::string name(std::string a) const { return a + std::to_string(k); }
};
enum Kind { Add, Cat, Scale, Not, Big, None, Set, Uns, Throw, Mul, Name, Sub, Join, Next, Echo, Eat, ErrObj, Checked, NKINDS, Help, Spec, HelpSpec };
struct Server : rexjson::rpc_server<Server> {
	using rexjson::rpc_server<Server>::verify_parameters;
	std::vector<unsigned> types;
	rexjson::value checked(rexjson::array &params, rexjson::rpc_exec_mode mode)
	{
		if (mode != rexjson::execute) return noexec(params, mode, types.data(), types.size(), "checked");
		verify_parameters(params, types.data(), types.size());
		return params;
	}
};
static const std::vector<std::vector<jref::Type>> ARGS = {{jref::Int, jref::Int}, {jref::Str, jref::Str}, {jref::Real, jref::Int}, {jref::Bool}, {jref::Int}, {}, {jref::Int}, {jref::Int}, {jref::Str}, {jref::Int}, {jref::Str}, {jref::Int, jref::Int}, {jref::Str, jref::Str}, {jref::Int}};
static V mk(jref::Type t) { V v; v.t = t; return v; }
static V str(const std::string &s) { V v = mk(jref::Str); v.s = s; return v; }
static V num(int64_t i) { V v = mk(jref::Int); v.i = i; return v; }
static int code_of(jref::Type t) { static const int m[] = {rexjson::null_type, rexjson::obj_type, rexjson::array_type, rexjson::str_type, rexjson::bool_type, rexjson::int_type, rexjson::real_type}; return m[t]; }
static std::string name_of(int code) { static const char *n[] = {"null", "object", "array", "string", "boolean", "integer", "real"}; return n[code]; }

struct Want { bool error = false; bool anyid = false; int64_t code = 0; bool code_known = true; bool message_known = false; std::string message; V result; V id; };

// a spec lists, per argument, a type or the list of types it may have; compared as sets
static bool spec_is(const V &got, const std::vector<unsigned> &masks, bool names)
{
	if (got.t != jref::Arr || got.a.size() != masks.size()) return false;
	for (size_t i = 0; i < masks.size(); i++) {
		std::vector<V> l;
		if (got.a[i].t == jref::Arr) l = got.a[i].a; else l.push_back(got.a[i]);
		unsigned m = 0;
		for (auto &x : l) {
			int c = -1;
			if (names) { if (x.t != jref::Str) return false; for (int k = 0; k < 7; k++) if (x.s == name_of(k)) c = k; }
			else { if (x.t != jref::Int) return false; c = x.i; }
			if (c < 0 || c > 6 || (m & 1u << c)) return false;
			m |= 1u << c;
		}
		if (m != masks[i]) return false;
	}
	return true;
}

static void one(Src &s, Ctx &c)
{
	Server srv;
	bool big = s.chance(1, 300);          // many methods, large arguments
	if (big) c.tag("large");
	Obj obj;
	std::map<std::string, Kind> methods = {{"help", Help}, {"spec", Spec}, {"helpspec", HelpSpec}};
	std::map<std::string, std::string> helps;
	std::vector<std::string> NAMES = {"a", "b", "c", "add", "x.y", "help", "\xc3\xa9t\xc3\xa9", "a\\n", "with space", "q\"q"};
	static const std::vector<std::string> MSG = {"", "help me", "two\nlines", "back\\slash and \\n", "\"quoted\"", "\xe2\x82\xac"};
	for (int n = 1 + s.below(3); n > 0; n--) srv.types.push_back(1 + s.below(127));
	// the specification of types survives its round trip
	{
		rexjson::value sp = Server::create_json_spec(srv.types.data(), srv.types.size());
		c.check(spec_is(jcpp::view(sp), srv.types, false), cat("specification ", sp.write()));
		c.check(Server::rpc_types(sp.get_array()) == srv.types && Server::rpc_types(sp.write()) == srv.types, cat("types read from the specification ", sp.write()));
		c.check(spec_is(jcpp::view(Server::create_json_helpspec(srv.types.data(), srv.types.size())), srv.types, true), "readable specification");
	}
	if (big) for (int n = 40 + s.below(400); n > 0; n--) NAMES.push_back(cat(s.chance(1, 8) ? std::string(s.below(300), 'n') : "method", n));
	int steps = (big ? 150 : 3) + s.below(c.thorough ? 25 : 12);
	for (int k = 0; k < steps; k++) {
		if (k < 2 || s.chance(1, 5) || (big && s.chance(1, 2))) {
			std::string n = s.pick(NAMES), h = s.pick(MSG);
			Kind kind = (Kind)s.below(NKINDS);
			c.append(cat("add ", quote(n), " kind ", (int)kind, "\n"));
			using rexjson::make_rpc_wrapper;
			switch (kind) {
			case Add: srv.add(n, make_rpc_wrapper(f_add, h)); break;
			case Cat: srv.add(n, make_rpc_wrapper(f_cat, h)); break;
			case Scale: srv.add(n, make_rpc_wrapper(f_scale, h)); break;
			case Not: srv.add(n, make_rpc_wrapper(f_not, h)); break;
			case Big: srv.add(n, make_rpc_wrapper(f_big, h)); break;
			case None: srv.add(n, make_rpc_wrapper(f_none, h)); break;
			case Set: srv.add(n, make_rpc_wrapper(f_set, h)); break;
			case Uns: srv.add(n, make_rpc_wrapper(f_uns, h)); break;
			case Throw: srv.add(n, make_rpc_wrapper(f_throw, h)); break;
			case Mul: srv.add(n, make_rpc_wrapper(&obj, &Obj::mul, h)); break;
			case Name: srv.add(n, rexjson::make_rpc_wrapper_const(&obj, &Obj::name, h)); break;
			case Sub: srv.add(n, make_rpc_wrapper(f_sub, h)); break;
			case Join: srv.add(n, make_rpc_wrapper(f_join, h)); break;
			case Next: srv.add(n, make_rpc_wrapper(f_next, h)); break;
			case Echo: srv.add(n, [](rexjson::array &p, rexjson::rpc_exec_mode m) -> rexjson::value { rexjson::object o; o["p"] = p; o["m"] = (int)m; return o; }); break;
			case Eat: srv.add(n, [](rexjson::array &p, rexjson::rpc_exec_mode m) -> rexjson::value { size_t k = p.size(); p.clear(); return (long)k; }); break;
			case ErrObj: srv.add(n, [](rexjson::array &p, rexjson::rpc_exec_mode m) -> rexjson::value { throw Server::create_rpc_error(rexjson::RPC_INTERNAL_ERROR, "broken"); }); break;
			default: srv.add(n, &Server::checked); break;
			}
			methods[n] = kind;
			helps[n] = h;
			if (s.chance(1, 8)) {
				bool bad = false;
				try { if (s.chance(1, 2)) srv.add("", make_rpc_wrapper(f_none)); else srv.add(n, Server::rpc_method_type()); } catch (std::runtime_error &) { bad = true; }
				c.check(bad, "a method without a name or a function was taken");
			}
			continue;
		}
		// a request
		std::string name = s.chance(5, 6) ? [&] { auto it = methods.begin(); std::advance(it, s.below(methods.size())); return it->first; }() : s.pick(NAMES);
		auto m = methods.find(name);
		std::vector<V> params;
		if (m != methods.end() && m->second >= Help) {
			if (s.chance(9, 10)) {
				std::string about = s.chance(5, 6) ? [&] { auto it = methods.begin(); std::advance(it, s.below(methods.size())); return it->first; }() : s.pick(NAMES);
				params.push_back(str(about));
			}
			if (s.chance(1, 8)) params.insert(params.begin() + s.below(params.size() + 1), jref::gen(s, 1));
		} else if (m != methods.end() && m->second < (int)ARGS.size()) {
			for (jref::Type t : ARGS[m->second]) {
				V v = mk(t);
				if (t == jref::Int) v.i = m->second == Big || m->second == Set || m->second == Next ? jref::gen_int(s) : m->second == Uns ? (int64_t)(uint32_t)s.bits() : s.range(-1000, 1000);
				if (t == jref::Int && s.chance(1, 12) && m->second != Uns && m->second != Next) v.i = m->second == Scale ? s.range(-9, 9) : s.chance(1, 2) ? INT32_MAX : INT32_MIN;
				if (t == jref::Real) { if (s.chance(1, 3)) { v.t = jref::Int; v.i = s.range(-99, 99); } else v.d = s.range(-9999, 9999) / 16.0; }
				if (t == jref::Str) v.s = s.chance(1, 3) ? jref::gen_str(s) : s.pick(MSG);
				if (t == jref::Bool) v.b = s.chance(1, 2);
				params.push_back(v);
			}
			if (s.chance(1, 8)) params.push_back(jref::gen(s, 1));
			if (s.chance(1, 8) && !params.empty()) params.erase(params.begin() + s.below(params.size()));
			if (s.chance(1, 8) && !params.empty()) params[s.below(params.size())] = jref::gen(s, 1);
		} else for (int n = s.below(5); n > 0; n--) params.push_back(big && s.chance(1, 12) ? jref::gen_big(s, false) : jref::gen(s, 2));
		V req = mk(jref::Obj), p = mk(jref::Arr), id = jref::gen(s, s.chance(1, 6) ? 2 : 0);
		p.a = params;
		req.o["method"] = str(name);
		bool has_params = !params.empty() || s.chance(1, 2), has_id = s.chance(3, 4), has_method = true, params_ok = true, object = true, method_ok = true;
		if (has_params) req.o["params"] = p;
		if (has_id) req.o["id"] = id; else id = V();
		if (s.chance(1, 4)) req.o["jsonrpc"] = str("2.0");
		if (s.chance(1, 20)) { has_method = false; req.o.erase("method"); }
		else if (s.chance(1, 20)) { V b = jref::gen(s, 1); if (b.t != jref::Str) { method_ok = false; req.o["method"] = b; } }
		if (s.chance(1, 20)) { V b = jref::gen(s, 1); if (b.t != jref::Arr) { params_ok = false; req.o["params"] = b; } }
		if (s.chance(1, 30)) { V b = jref::gen(s, 1); if (b.t != jref::Obj) { object = false; req = b; } }
		auto mode = (rexjson::rpc_exec_mode)s.weighted({8, 1, 1, 1});
		// what should come back
		Want w;
		w.id = id;
		const std::vector<unsigned> *spec = nullptr;
		std::vector<unsigned> tmp;
		bool names = false, help_text = false, listing = false, set = false;
		auto err = [&](int64_t code) { w.error = true; w.code = code; };
		// what a method says about itself
		auto describe = [&](const std::string &n, Kind k, rexjson::rpc_exec_mode md) {
			if (k == Echo) { V o = mk(jref::Obj); o.o["p"] = mk(jref::Arr); o.o["m"] = num(md); w.result = o; return; }
			if (k == Eat) { w.result = num(0); return; }
			if (k == ErrObj) { err(-32603); w.message_known = true; w.message = "broken"; return; }
			if (md == rexjson::help) {
				if (k >= Help) help_text = true;
				else w.result = str(k == Checked ? "checked" : helps[n]);
				return;
			}
			names = md == rexjson::helpspec;
			if (k == Checked) tmp = srv.types;
			else if (k == Help) tmp = {1u << rexjson::str_type | 1u << rexjson::null_type};
			else if (k > Help) tmp = {1u << rexjson::str_type};
			else for (jref::Type t : ARGS[k]) tmp.push_back(1u << code_of(t));
			if (k == Checked) { // masks are given in the interface's own bits, one bit per type in type order
			}
			spec = &tmp;
		};
		if (!object) { err(-32700); w.anyid = true; }
		else if (!params_ok) { err(-32600); w.anyid = true; }
		else if (!has_method || !method_ok) err(-32600);
		else if (m == methods.end()) err(-32601);
		else if (mode != rexjson::execute) {
			describe(name, m->second, mode);
			if (m->second == Echo) { V pp = mk(jref::Arr); pp.a = params; w.result.o["p"] = pp; }
			if (m->second == Eat) w.result = num(params.size());
		} else {
			Kind kd = m->second;
			auto arg = [&](size_t i) -> const V & { return params[i]; };
			if (kd < (int)ARGS.size()) {
				bool ok = params.size() >= ARGS[kd].size();
				for (size_t i = 0; ok && i < ARGS[kd].size(); i++) {
					jref::Type t = ARGS[kd][i], g = params[i].t;
					ok = g == t || (t == jref::Real && g == jref::Int);
				}
				if (!ok) err(-1);
				else switch (kd) {
				case Add: w.result = num((int)((unsigned)arg(0).i + (unsigned)arg(1).i)); break;
				case Cat: w.result = str(arg(0).s + "|" + arg(1).s); break;
				case Scale: w.result = mk(jref::Real); w.result.d = (arg(0).t == jref::Int ? (double)arg(0).i : arg(0).d) * (int)arg(1).i; break;
				case Not: w.result = mk(jref::Bool); w.result.b = !arg(0).b; break;
				case Big: w.result = num(~arg(0).i); break;
				case None: w.result = num(42); break;
				case Set: w.result = str(""); set = true; break;
				case Uns: w.result = num((unsigned)arg(0).i); break;
				case Throw: err(-1); w.message_known = true; w.message = arg(0).s.c_str(); break;
				case Mul: w.result = num((int)((unsigned)arg(0).i * 7u)); break;
				case Sub: w.result = num((int)((unsigned)arg(0).i - (unsigned)arg(1).i)); break;
				case Join: w.result = str(arg(1).s + "/" + arg(0).s); break;
				case Next: w.result = num((int64_t)((uint64_t)arg(0).i + 1)); break;
				default: w.result = str(arg(0).s + "7"); break;
				}
			} else if (kd == Echo) { w.result = mk(jref::Obj); V pp = mk(jref::Arr); pp.a = params; w.result.o["p"] = pp; w.result.o["m"] = num(0); }
			else if (kd == Eat) w.result = num(params.size());
			else if (kd == ErrObj) { err(-32603); w.message_known = true; w.message = "broken"; }
			else if (kd == Checked) {
				V r = mk(jref::Arr);
				r.a = params;
				r.a.resize(srv.types.size());
				for (size_t i = 0; i < r.a.size(); i++) if (!(srv.types[i] & 1u << code_of(r.a[i].t))) err(-32602);
				w.result = r;
			} else {
				V about = params.empty() ? V() : params[0];
				if (kd == Help && about.t == jref::Null) listing = true;
				else if (about.t != jref::Str) err(-32602);
				else if (!methods.count(about.s)) err(-32601);
				else describe(about.s, methods[about.s], kd == Help ? rexjson::help : kd == Spec ? rexjson::spec : rexjson::helpspec);
			}
		}
		if (w.error) w.result = V();
		// ask
		int way = s.below(3);
		if (way == 2 && (!object || !params_ok || !has_method || !method_ok)) way = 0;
		std::string text;
		rexjson::value reply;
		g_set = 0x5a5a;
		if (way == 0) {
			rexjson::value r = jcpp::make(req);
			std::string before = r.write(false, true, 4, 17);
			c.append(cat("call ", jref::show(req), " mode ", (int)mode, "\n"));
			reply = srv.call(r, mode);
			c.check(r.write(false, true, 4, 17) == before, "the request was changed");
		} else if (way == 1) {
			text = jref::ws(s) + jref::print(s, req) + jref::ws(s);
			c.append(cat("call text ", quote(text), " mode ", (int)mode, "\n"));
			reply = srv.call(text, mode);
		} else {
			c.append(cat("call by name ", jref::show(req), " mode ", (int)mode, "\n"));
			if (!has_id) w.id = V();
			rexjson::value pv = jcpp::make(p);
			reply = srv.call(name, jcpp::make(w.id), pv.get_array(), mode);
		}
		V g = jcpp::view(reply);
		auto bad = [&](const char *what) { c.fail(cat(what, ": the answer is ", jref::show(g), "\nexpected ", w.error ? cat("error ", w.code) : jref::show(w.result))); };
		if (g.t != jref::Obj || g.o.size() != 3 || !g.o.count("result") || !g.o.count("error") || !g.o.count("id")) bad("shape");
		if (!jref::same(g.o["id"], w.id) && !(w.anyid && g.o["id"].t == jref::Null)) bad("id");
		if (w.error) {
			V e = g.o["error"];
			if (e.t != jref::Obj || e.o["code"].t != jref::Int || e.o["message"].t != jref::Str) bad("form of the error");
			if (e.o["code"].i != w.code) bad("error code");
			if (w.message_known && e.o["message"].s != w.message) bad("error message");
			if (g.o["result"].t != jref::Null) bad("result beside an error");
			c.tag(cat("error ", w.code));
		} else {
			if (g.o["error"].t != jref::Null) bad("error");
			V r = g.o["result"];
			if (spec) { if (!spec_is(r, *spec, names)) bad("specification"); c.tag("specification"); }
			else if (help_text) { if (r.t != jref::Str || r.s.empty()) bad("help text"); }
			else if (listing) {
				std::string l;
				for (auto &x : methods) l += x.first + "\n";
				w.result = str(l);
				if (!jref::same(r, w.result)) bad("list of methods");
				c.tag("list of methods");
			} else if (!jref::same(r, w.result)) bad("result");
			if (set) c.check(g_set == params[0].i, "a void method was not called with its argument");
			c.nontrivial = true;
			c.tag("result");
		}
		// text that is not JSON at all
		if (s.chance(1, 12)) {
			std::string t = jref::gen_text(s, false);
			jref::Parser ref(t, 32);
			try { ref.top(); } catch (jref::Bad &) {
				c.append(cat("call text ", quote(t), "\n"));
				V g = jcpp::view(srv.call(t));
				c.check(g.t == jref::Obj && g.o.size() == 3 && g.o["result"].t == jref::Null && g.o["id"].t == jref::Null && g.o["error"].t == jref::Obj && g.o["error"].o["code"].t == jref::Int && g.o["error"].o["message"].t == jref::Str, cat("answer to malformed text ", jref::show(g)));
				c.tag("malformed text");
			}
		}
	}
}

int main(int argc, char **argv)
{
	Config f;
	f.id = "J05";
	f.rule = "sequences of method registrations (raw, wrapped functions and member functions of many types) and requests, well-formed or not, by value, text or name and in all modes; non-trivial: a request answered with a result";
	f.quick_cases = 90000;
	f.thorough_cases = 2000000;
	f.fn = one;
	f.assumptions = {"the id in the answer to a request whose parameters are malformed, and which of several unfit arguments is complained about, are not judged", "integers are in the range of the argument's type"};
	return run_main(argc, argv, f);
}
