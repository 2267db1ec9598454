// Thin RAII layer over the RPA C interface, shared by the P checks.
#ifndef VERIF_RPAH_H
#define VERIF_RPAH_H
#include "pbt.h"
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rarray.h"
#include "rlib/rcharconv.h"
#include "rpa/rpa.h"
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rpa/rparecord.h"
#include "rpa/rpaerror.h"
}
namespace rpah {
struct Db {
	rpadbex_t *p;
	Db() : p(rpa_dbex_create()) {}
	Db(const Db &) = delete;
	~Db() { close(); }
	void close() { if (p) rpa_dbex_destroy(p); p = nullptr; }
	bool load(const std::string &t)
	{
		rpa_dbex_open(p);
		long r = rpa_dbex_load(p, t.data(), t.size());
		if (r < 0) return false;
		rpa_dbex_close(p);
		return r == (long)t.size();
	}
	bool compile() { return rpa_dbex_compile(p) >= 0; }
	long rid(const std::string &n) { return rpa_dbex_lookup(p, n.data(), n.size()); }
	std::string error()
	{
		rpa_errinfo_t e;
		memset(&e, 0, sizeof e);
		rpa_dbex_lasterrorinfo(p, &e);
		return pbt::cat("code ", e.code, " mask ", e.mask, " line ", e.line, " offset ", e.offset, " name ", pbt::quote(std::string(e.name, strnlen(e.name, sizeof e.name))));
	}
};
struct Stat {
	rpastat_t *p;
	explicit Stat(Db &d, unsigned long stack = 32768) : p(rpa_stat_create(d.p, stack)) {}
	Stat(const Stat &) = delete;
	~Stat() { rpa_stat_destroy(p); }
};
}
#endif
