// libs: rvm rlib
// V01: programs of the virtual machine against a reference interpreter written from the instruction descriptions.
#include "pbt.h"
extern "C" {
#include "rlib/rmem.h"
#include "rvm/rvmcpu.h"
}
#include <unistd.h>
#include <fcntl.h>
using namespace pbt;

typedef uint64_t U;
static const U SIGN = 1ull << 63;

struct Reg { U v = 0; unsigned type = 0; };

static const char *regname(unsigned r)
{
	static const char *n[] = {"R0", "R1", "R2", "R3", "R4", "R5", "R6", "R7", "IP", "TP", "FP", "SP", "LR", "PC", "DA", "XX"};
	return n[r & 15];
}

enum { Z = 1, N = 2, C = 4, V = 8, E = 16 };

static const size_t CODE = 48, MEM = 256;
enum { OP_USERA = RVM_USER128 + 3, OP_UNSET = RVM_USER128 + 77 };

// What the calls made by the program recorded; both sides keep one.
struct Log { std::vector<std::string> v; };
static Log *g_log;
static void swi_a(rvmcpu_t *cpu, rvm_asmins_t *ins) { g_log->v.push_back(cat("a", ins->op2)); RVM_CPUREG_SETU(cpu, R0, RVM_CPUREG_GETU(cpu, R0) + 7); }
static void swi_b(rvmcpu_t *cpu, rvm_asmins_t *) { g_log->v.push_back("b"); RVM_CPUREG_SETU(cpu, R1, 99); }
static void swi_c(rvmcpu_t *cpu, rvm_asmins_t *) { g_log->v.push_back("c"); rvm_cpu_abort(cpu); }
static void swi_d(rvmcpu_t *cpu, rvm_asmins_t *ins) { g_log->v.push_back("d"); RVM_CPUREG_SETU(cpu, ins->op3, RVM_CPUREG_GETU(cpu, ins->op2) ^ 5); }
static rvm_switable_t T0[] = {{"alpha", swi_a}, {"beta", swi_b}, {0, 0}};
static rvm_switable_t T1[] = {{"gamma", swi_c}, {"delta", swi_d}, {"alpha", swi_b}, {0, 0}};
static const int SWIS[] = {RVM_SWI_ID(0, 0), RVM_SWI_ID(0, 1), RVM_SWI_ID(1, 0), RVM_SWI_ID(1, 1), RVM_SWI_ID(1, 2)};

struct Machine {
	Reg r[16];
	U status = 0, error = 0;
	bool abort = false;
	std::vector<Reg> stack;
	std::vector<char> stackknown;
	std::vector<uint8_t> mem;
	U code0, stack0, mem0, stacksize;
	Log log;
	U unspec = 0;           // registers whose contents are not specified after an error
	U cmask = 0;            // bits of the status that are not specified at this point
	std::set<unsigned> used;

	void upd(unsigned b, bool on) { if (on) status |= b; else status &= ~(U)b; cmask &= ~(U)b; }
	void zn(U res) { upd(Z, !res); upd(N, res & SIGN); }
	void clrzn(U res) { status &= ~(U)31; cmask = 0; zn(res); }
	void needstatus(U b) { if (cmask & b) throw Discard(); }
	void fail(U e) { error = e; abort = true; }
	uint8_t *at(U a, size_t n) {
		if (a >= mem0 && a < mem0 + MEM && a + n <= mem0 + MEM) return &mem[a - mem0];
		throw Discard();
	}
	void addflags(U a, U b, U cin, U &res) {
		unsigned __int128 w = (unsigned __int128)a + b + cin;
		res = (U)w;
		upd(C, (w >> 64) != 0);
		zn(res);
		upd(V, ((a ^ res) & (b ^ res) & SIGN) != 0);
	}
	void subflags(U a, U b, U borrow, U &res) {
		res = a - b - borrow;
		upd(C, !((unsigned __int128)a < (unsigned __int128)b + borrow));
		zn(res);
		upd(V, (a ^ b) & ~(a ^ res) & SIGN);       // as the tests of CMP have it
	}
	U spidx(const rvm_asmins_t &i) { return (i.op2 != XX ? r[i.op2].v : 0) + (i.op3 != XX ? r[i.op3].v : 0); }
	Reg read(U i) { if (!stackknown[i]) throw Discard(); return stack[i]; }
	void write(U i, const Reg &x) { stack[i] = x; stackknown[i] = 1; }
	void branch(U rel) { r[PC].v += (rel - 1) * sizeof(rvm_asmins_t); }
	void swi(U id, const rvm_asmins_t &i) {
		unsigned t = (id >> 8), n = id & 255;
		if (t >= 2) return fail(RVM_E_SWITABLE);
		if (t == 0 && n == 0) { log.v.push_back(cat("a", i.op2)); r[R0].v += 7; }
		else if ((t == 0 && n == 1) || (t == 1 && n == 2)) { log.v.push_back("b"); r[R1].v = 99; }
		else if (t == 1 && n == 0) { log.v.push_back("c"); error = RVM_E_USERABORT; abort = true; }
		else if (t == 1 && n == 1) { log.v.push_back("d"); r[i.op3].v = r[i.op2].v ^ 5; }
		else throw Discard();
	}
	void step(const rvm_asmins_t &i) {
		used.insert(i.opcode);
		if (i.op1 == DA || i.op2 == DA || i.op3 == DA) { r[DA].v = i.data.v.w; r[DA].type = i.data.type; }
		Reg &d = r[i.op1];
		U a = r[i.op1].v, b = r[i.op2].v, c = r[i.op3].v, res;
		bool lt = status & N, eq = status & Z;
		switch (i.opcode) {
		case RVM_EXT: abort = true; break;
		case RVM_ABORT: fail(a); break;
		case RVM_NOP: break;
		case RVM_MOV: d = r[i.op2]; break;
		case RVM_MOVS: d.v = b; clrzn(b); break;
		case RVM_SWP: { Reg t = r[i.op1]; r[i.op1] = r[i.op2]; r[i.op2] = t; break; }
		case RVM_INC: d.v = a + 1; break;
		case RVM_DEC: d.v = a - 1; break;
		case RVM_ADD: d.v = b + c; break;
		case RVM_ADDS: addflags(b, c, 0, res); d.v = res; break;
		case RVM_ADC: needstatus(C); addflags(b, c, status & C ? 1 : 0, res); d.v = res; break;
		case RVM_AND: d.v = res = b & c; clrzn(res); break;
		case RVM_BIC: d.v = res = b & ~c; clrzn(res); break;
		case RVM_CLZ: d.v = b ? __builtin_clzll(b) : 64; break;
		case RVM_CMN: addflags(a, b, 0, res); break;
		case RVM_XOR: d.v = res = b ^ c; clrzn(res); break;
		case RVM_SUB: d.v = b - c; break;
		case RVM_SUBS: subflags(b, c, 0, res); d.v = res; break;
		case RVM_SBC: needstatus(C); subflags(b, c, status & C ? 0 : 1, res); d.v = res; break;
		case RVM_MUL: d.v = b * c; break;
		case RVM_MLS: d.v = res = b * c; clrzn(res); break;
		case RVM_MULS: d.v = res = b * c; clrzn(res); upd(C, ((unsigned __int128)b * c) >> 64 != 0); break;
		case RVM_NOT: d.v = res = ~b; clrzn(res); break;
		case RVM_DIV: if (!c) { fail(RVM_E_DIVZERO); break; } d.v = b / c; break;
		case RVM_DIVS: if (!c) { fail(RVM_E_DIVZERO); break; } d.v = res = b / c; clrzn(res); break;
		case RVM_MOD: if (!c) { fail(RVM_E_DIVZERO); break; } d.v = b % c; break;
		case RVM_MODS: if (!c) { fail(RVM_E_DIVZERO); break; }
			d.v = res = c == ~0ull ? 0 : (U)((int64_t)b % (int64_t)c); clrzn(res); break;
		case RVM_DVS: if (!c) { fail(RVM_E_DIVZERO); break; }
			d.v = res = c == ~0ull ? 0 - b : (U)((int64_t)b / (int64_t)c); clrzn(res); break;
		case RVM_LSL: if (c > 63) throw Discard(); d.v = res = b << c; clrzn(res); break;
		case RVM_LSR: if (c > 63) throw Discard(); d.v = res = b >> c; clrzn(res); cmask = N; break;
		case RVM_LSRS: if (c > 63) throw Discard(); d.v = res = (U)((int64_t)b >> c); clrzn(res); cmask = N; break;
		case RVM_ASR: if (c > 63) throw Discard(); d.v = res = (U)((int64_t)b >> c); clrzn(res); break;
		case RVM_ROR: res = c % 64 ? (b >> (c % 64)) | (b << (64 - c % 64)) : b;
			d.v = res; clrzn(res); upd(C, res & SIGN); if (!c) cmask = C; break;
		case RVM_TST: clrzn(a & b); break;
		case RVM_TEQ: clrzn(b ^ c); break;
		case RVM_ORR: d.v = res = b | c; clrzn(res); break;
		case RVM_CMP:
			upd(C, a < b); res = a - b; zn(res); upd(V, (a ^ b) & ~(a ^ res) & SIGN); break;
		case RVM_CFLAG: status &= ~a; break;
		case RVM_CLR: d.v = 0; d.type = RVM_DTYPE_UNDEF; break;
		case RVM_TYPE: { unsigned t = r[i.op2].type; d.v = t; d.type = RVM_DTYPE_UNSIGNED; break; }
		case RVM_SETTYPE: d.type = (uint16_t)b; break;
		case RVM_B: branch(a); break;
		case RVM_BEQ: needstatus(Z); if (eq) branch(a); break;
		case RVM_BNEQ: needstatus(Z); if (!eq) branch(a); break;
		case RVM_BLEQ: needstatus(Z | N); if (eq || lt) branch(a); break;
		case RVM_BGEQ: needstatus(Z | N); if (!lt || eq) branch(a); break;
		case RVM_BLES: needstatus(N); if (lt) branch(a); break;
		case RVM_BGRE: needstatus(Z | N); if (!lt && !eq) branch(a); break;
		case RVM_BX: r[PC].v = a; break;
		case RVM_BXEQ: needstatus(Z); if (eq) r[PC].v = a; break;
		case RVM_BXNEQ: needstatus(Z); if (!eq) r[PC].v = a; break;
		case RVM_BXLEQ: needstatus(Z | N); if (eq || lt) r[PC].v = a; break;
		case RVM_BXGEQ: needstatus(Z | N); if (!lt || eq) r[PC].v = a; break;
		case RVM_BXLES: needstatus(N); if (lt) r[PC].v = a; break;
		case RVM_BXGRE: needstatus(Z | N); if (!lt && !eq) r[PC].v = a; break;
		case RVM_BL: r[LR].v = r[PC].v; branch(a); break;
		case RVM_BXL: r[LR].v = r[PC].v; r[PC].v = a; break;
		case RVM_RET: r[PC].v = r[LR].v; break;
		case RVM_STR: case RVM_STRP: memcpy(at(b, 8), &a, 8); break;
		case RVM_STRB: memcpy(at(b, 1), &a, 1); break;
		case RVM_STRH: memcpy(at(b, 2), &a, 2); break;
		case RVM_STRW: memcpy(at(b, 4), &a, 4); break;
		case RVM_LDR: case RVM_LDRP: memcpy(&d.v, at(b, 8), 8); break;
		case RVM_LDRB: { uint8_t x; memcpy(&x, at(b, 1), 1); d.v = x; break; }
		case RVM_LDRH: { uint16_t x; memcpy(&x, at(b, 2), 2); d.v = x; break; }
		case RVM_LDRW: { uint32_t x; memcpy(&x, at(b, 4), 4); d.v = x; break; }
		// whole registers are only moved to and from the stack in these programs (through ADDRS)
		case RVM_STRR:
			if (r[i.op2].type != RVM_DTYPE_POINTER) { fail(RVM_E_LVALUE); break; }
			write(slot(b), r[i.op1]); break;
		case RVM_LDRR: d = read(slot(b)); break;
		case RVM_CLRR: { Reg x; x.type = RVM_DTYPE_UNDEF; write(slot(a), x); break; }
		case RVM_STM: { U m = b; for (int k = 0; k < RLST; k++) if (m >> k & 1) { memcpy(at(a, 8), &r[k].v, 8); a += 8; } break; }
		case RVM_LDM: { U m = b; for (int k = 0; k < RLST; k++) if (m >> k & 1) { memcpy(&r[k].v, at(a, 8), 8); r[k].type = 0; a += 8; } break; }
		case RVM_PUSH: { U sp = r[SP].v + 1; if (sp >= stacksize) { fail(RVM_E_NOMEM); break; } write(sp, r[i.op1]); r[SP].v = sp; break; }
		case RVM_POP: {
			U sp = r[SP].v;
			if (sp >= stacksize) { fail(RVM_E_NOMEM); break; }
			Reg x = read(sp); if (i.op1 != SP) r[SP].v = sp - 1; r[i.op1] = x; break; }
		case RVM_STS: { U x = spidx(i); if (x >= stacksize) { fail(RVM_E_NOMEM); break; } write(x, r[i.op1]); break; }
		case RVM_LDS: { U x = spidx(i); if (x >= stacksize) { fail(RVM_E_NOMEM); break; } d = read(x); break; }
		case RVM_ADDRS: { U x = spidx(i); if (x >= stacksize) { fail(RVM_E_NOMEM); break; } d.v = stack0 + x * sizeof(rvmreg_t); d.type = RVM_DTYPE_POINTER; break; }
		case RVM_PUSHM: {
			U sp = r[SP].v; int n = __builtin_popcountll(a & 0x7fff);
			if (!n) { if (sp + 16 >= stacksize) throw Discard(); break; }
			if (sp + 1 >= stacksize || sp + n >= stacksize) { fail(RVM_E_NOMEM); break; }
			if (sp + 16 >= stacksize) throw Discard();       // may or may not be refused
			for (int k = 0; k < RLST; k++) if (a >> k & 1) write(++sp, r[k]);
			r[SP].v = sp; break; }
		case RVM_POPM: {
			U sp = r[SP].v; int n = __builtin_popcountll(a & 0x7fff);
			if (!n) break;
			if (sp >= stacksize || sp < (U)n - 1) { fail(RVM_E_NOMEM); unspec = a; break; }     // some may have been loaded
			for (int k = RLST - 1; k >= 0; k--) if (a >> k & 1) r[k] = read(sp--);
			if (!(a >> SP & 1)) r[SP].v = sp;
			break; }
		case RVM_SWI: swi(i.swi, i); break;
		case RVM_SWIID: swi(a, i); break;
		case RVM_CALL:
			if (d.type == RVM_DTYPE_SWIID) { r[LR].v = r[PC].v; swi(a, i); }
			else if (d.type == RVM_DTYPE_FUNCTION) { r[LR].v = r[PC].v; r[PC].v = a; }
			else if (d.type == RVM_DTYPE_OPHANDLER) { if (a != (U)(void*)swi_d) throw Discard(); log.v.push_back("d"); r[i.op3].v = r[i.op2].v ^ 5; }
			else fail(RVM_E_NOTFUNCTION);
			break;
		case OP_USERA: log.v.push_back("d"); r[i.op3].v = r[i.op2].v ^ 5; break;
		case OP_UNSET: fail(RVM_E_ILLEGAL); break;
		default: throw Discard();
		}
		r[PC].v += sizeof(rvm_asmins_t);
	}
	U slot(U addr) {
		if (addr < stack0 || addr >= stack0 + stacksize * sizeof(rvmreg_t) || (addr - stack0) % sizeof(rvmreg_t)) throw Discard();
		return (addr - stack0) / sizeof(rvmreg_t);
	}
};

static unsigned gp(Src &s) { return s.chance(1, 12) ? 8 + s.below(3) : s.below(8); }
static unsigned srcreg(Src &s) { return s.chance(1, 3) ? (unsigned)DA : gp(s); }
static U value(Src &s)
{
	static const std::vector<U> iv = {0, 1, 2, 3, 7, 8, 63, 64, 255, 256, 65535, 65536, 0xffffffffull, 0x100000000ull, SIGN - 1, SIGN, SIGN + 1, ~0ull, ~0ull - 1, 0xffffffff00000000ull};
	return s.chance(1, 4) ? s.bits() : s.pick(iv);
}

// Writes the instruction for the state the machine is in, so that most of what runs is meaningful.
static rvm_asmins_t gen(Src &s, Machine &m, size_t pos, bool last)
{
	static const std::vector<unsigned> alu = {RVM_ADD, RVM_ADDS, RVM_ADC, RVM_SUB, RVM_SUBS, RVM_SBC, RVM_AND, RVM_BIC, RVM_XOR, RVM_ORR, RVM_MUL, RVM_MLS, RVM_MULS, RVM_DIV, RVM_DVS, RVM_DIVS, RVM_MOD, RVM_MODS};
	static const std::vector<unsigned> one = {RVM_MOV, RVM_MOVS, RVM_CLZ, RVM_NOT, RVM_INC, RVM_DEC, RVM_CLR, RVM_TYPE, RVM_SWP};
	static const std::vector<unsigned> cmp = {RVM_CMP, RVM_CMN, RVM_TST, RVM_TEQ};
	static const std::vector<unsigned> sh = {RVM_LSL, RVM_LSR, RVM_LSRS, RVM_ASR, RVM_ROR};
	static const std::vector<unsigned> br = {RVM_B, RVM_BEQ, RVM_BNEQ, RVM_BLEQ, RVM_BGEQ, RVM_BLES, RVM_BGRE, RVM_BL};
	static const std::vector<unsigned> bx = {RVM_BX, RVM_BXEQ, RVM_BXNEQ, RVM_BXLEQ, RVM_BXGEQ, RVM_BXLES, RVM_BXGRE, RVM_BXL};
	static const std::vector<unsigned> types = {RVM_DTYPE_UNSIGNED, RVM_DTYPE_SIGNED, RVM_DTYPE_BOOLEAN, RVM_DTYPE_POINTER, RVM_DTYPE_UNDEF, RVM_DTYPE_USER, RVM_DTYPE_PAIR};
	if (last) return rvm_asm(RVM_EXT, XX, XX, XX, 0);
	auto mem = [&](size_t n) { return m.mem0 + s.below((MEM - n) / n + 1) * n; };
	switch (s.weighted({10, 5, 3, 4, 4, 3, 4, 4, 4, 3, 2, 2, 1, 1, 1})) {
	default: return rvm_asm(s.pick(alu), gp(s), srcreg(s), srcreg(s), value(s));
	case 1: { unsigned o = s.pick(one); return rvm_asm(o, gp(s), o == RVM_SWP ? gp(s) : srcreg(s), XX, value(s)); }
	case 2: return rvm_asm(s.pick(cmp), srcreg(s), srcreg(s), srcreg(s), value(s));
	case 3: { unsigned o = s.pick(sh); return rvm_asm(o, gp(s), gp(s), DA, o == RVM_ROR && s.chance(1, 6) ? value(s) : s.below(64)); }
	case 4: {                 // memory
		switch (s.below(10)) {
		default: return rvm_asm(RVM_STR, gp(s), DA, XX, mem(8));
		case 1: return rvm_asm(RVM_LDR, gp(s), DA, XX, mem(8));
		case 2: return rvm_asm(RVM_STRB, gp(s), DA, XX, mem(1));
		case 3: return rvm_asm(RVM_LDRB, gp(s), DA, XX, mem(1));
		case 4: return rvm_asm(RVM_STRH, gp(s), DA, XX, mem(2));
		case 5: return rvm_asm(RVM_LDRH, gp(s), DA, XX, mem(2));
		case 6: return rvm_asm(RVM_STRW, gp(s), DA, XX, mem(4));
		case 7: return rvm_asm(RVM_LDRW, gp(s), DA, XX, mem(4));
		case 8: return rvm_asm(RVM_STRP, gp(s), DA, XX, mem(8));
		case 9: return rvm_asm(RVM_LDRP, gp(s), DA, XX, mem(8));
		}
	}
	case 5: {                 // several registers and memory: address in one register, mask in DA
		unsigned mask = s.below(1 << 11);
		if (s.chance(1, 3)) mask = s.below(256);
		bool ld = s.chance(1, 2);
		for (unsigned k = 0; k < 11; k++)
			if (m.r[k].v >= m.mem0 && m.r[k].v + 16 * 8 <= m.mem0 + MEM) return rvm_asm(ld ? RVM_LDM : RVM_STM, k, DA, XX, mask);
		return rvm_asmp(RVM_MOV, gp(s), DA, XX, (void*)mem(8));
	}
	case 6: {                 // push and pop
		if (s.chance(1, 2)) return rvm_asm(RVM_PUSH, srcreg(s), XX, XX, value(s));
		if (s.chance(1, 3)) return rvm_asm(RVM_PUSHM, DA, XX, XX, s.below(1 << 11) | (s.chance(1, 4) ? BIT(SP) : 0) | (s.chance(1, 4) ? BIT(LR) : 0));
		if (s.chance(1, 2)) return rvm_asm(RVM_POP, gp(s), XX, XX, 0);
		return rvm_asm(RVM_POPM, DA, XX, XX, s.chance(1, 2) ? 1ull << s.below(11) : s.below(256));
	}
	case 7: {                 // addressed stack
		U x = s.chance(1, 25) ? m.stacksize + s.below(3) : s.chance(1, 60) ? value(s) : s.below(m.stacksize);
		unsigned o3 = XX;
		U tot = x;
		if (s.chance(1, 3) && m.r[FP].v < m.stacksize && x >= m.r[FP].v) { o3 = FP; x -= m.r[FP].v; }
		bool sw = s.chance(1, 2);
		unsigned p = sw ? o3 : (unsigned)DA, q = sw ? (unsigned)DA : o3;
		switch (s.below(4)) {
		case 0: return rvm_asm(RVM_STS, gp(s), p, q, x);
		case 1: case 2:
			if (tot < m.stacksize && !m.stackknown[tot]) return rvm_asm(RVM_STS, gp(s), p, q, x);
			return rvm_asm(RVM_LDS, gp(s), p, q, x);
		default: return rvm_asm(RVM_ADDRS, gp(s), p, q, x);
		}
	}
	case 8: {                 // relative branches, mostly forward
		U rel = 1 + s.below(std::min<size_t>(6, CODE - 2 - pos));
		if (s.chance(1, 8)) rel = (U)-(int64_t)s.below(pos + 1);
		return rvm_asm(s.pick(br), DA, XX, XX, rel);
	}
	case 9: {                 // jumps: the machine goes on after the instruction that the address names
		size_t to = pos + s.below(std::min<size_t>(6, CODE - 2 - pos));
		if (s.chance(1, 10)) to = s.below(pos + 1);
		U addr = m.code0 + to * sizeof(rvm_asmins_t);
		if (s.chance(1, 4)) return rvm_asmf(RVM_CALL, DA, XX, XX, addr);
		return rvm_asmp(s.pick(bx), DA, XX, XX, (void*)addr);
	}
	case 10: {
		U l = m.r[LR].v;
		if (l >= m.code0 && l < m.code0 + (CODE - 2) * sizeof(rvm_asmins_t) && s.chance(1, 2)) return rvm_asm(RVM_RET, XX, XX, XX, 0);
		return rvm_asm(RVM_SETTYPE, gp(s), DA, XX, s.pick(types));
	}
	case 11: {                // through the pointer of a stack slot
		for (unsigned k = 0; k < 11; k++)
			if (m.r[k].type == RVM_DTYPE_POINTER && m.r[k].v >= m.stack0 && m.r[k].v < m.stack0 + m.stacksize * sizeof(rvmreg_t)) {
				if (s.chance(1, 3)) return rvm_asm(RVM_CLRR, k, XX, XX, 0);
				return rvm_asm(s.chance(1, 2) ? RVM_LDRR : RVM_STRR, gp(s), k, XX, 0);
			}
		if (s.chance(1, 8)) return rvm_asm(RVM_STRR, gp(s), gp(s), XX, 0);
		return rvm_asm(RVM_ADDRS, gp(s), DA, XX, s.below(m.stacksize));
	}
	case 12: {
		int id = SWIS[s.below(5)];
		if (s.chance(1, 3) && id == RVM_SWI_ID(1, 0)) id = SWIS[0];
		if (s.chance(1, 20)) id = RVM_SWI_ID(2 + s.below(3), s.below(3));
		unsigned o2 = gp(s), o3 = gp(s);
		switch (s.below(3)) {
		case 0: return rvm_asm(RVM_OPSWI(id), XX, o2, o3, 0);
		case 1: return rvm_asms(RVM_SWIID, DA, o2, o3, id);
		default: return rvm_asms(RVM_CALL, DA, o2, o3, id);
		}
	}
	case 13:
		switch (s.below(4)) {
		case 0: return rvm_asm(OP_USERA, XX, gp(s), gp(s), 0);
		case 1: return rvm_asm(RVM_CFLAG, DA, XX, XX, s.below(32));
		case 2: { rvm_asmins_t i = rvm_asmp(RVM_CALL, DA, gp(s), gp(s), (void*)swi_d); i.data.type = RVM_DTYPE_OPHANDLER; return i; }
		default: return rvm_asm(RVM_NOP, XX, XX, XX, 0);
		}
	case 14:
		switch (s.below(6)) {
		case 0: return rvm_asm(RVM_EXT, XX, XX, XX, 0);
		case 1: return rvm_asm(RVM_ABORT, DA, XX, XX, 1 + s.below(20));
		case 2: return rvm_asm(RVM_CALL, gp(s), XX, XX, 0);
		case 3: return rvm_asm(OP_UNSET, gp(s), gp(s), gp(s), 0);
		default: return rvm_asm(RVM_MOV, s.chance(1, 2) ? FP : SP, DA, XX, s.below(m.stacksize + (s.chance(1, 8) ? 2 : 0)));
		}
	}
}

static std::string show(const rvm_asmins_t &i, size_t pos, const Machine &m)
{
	char b[200];
	static const char *names[256];
	if (!names[0]) {
		rvmcpu_t *cpu = rvm_cpu_create(1);
		for (int k = 0; k < 256; k++) names[k] = cpu->ops[k].name ? strdup(cpu->ops[k].name) : "?";
		rvm_cpu_destroy(cpu);
	}
	U v = i.data.v.w;
	std::string val;
	if (v >= m.mem0 && v < m.mem0 + MEM) val = cat("mem+", v - m.mem0);
	else if (v >= m.code0 && v < m.code0 + CODE * sizeof(rvm_asmins_t)) val = cat("code+", (v - m.code0) / sizeof(rvm_asmins_t));
	else { snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); val = b; }
	bool da = i.op1 == DA || i.op2 == DA || i.op3 == DA;
	snprintf(b, sizeof b, "%2zu: %s(%d)%s %s %s %s %s\n", pos, names[i.opcode], i.opcode, i.swi ? cat("/", i.swi).c_str() : "", regname(i.op1), regname(i.op2), regname(i.op3), da ? val.c_str() : "");
	return b;
}

static std::string st(U x) { std::string r; r += x & E ? 'E' : '_'; r += x & V ? 'V' : '_'; r += x & C ? 'C' : '_'; r += x & N ? 'N' : '_'; r += x & Z ? 'Z' : '_'; return r; }

// Instructions are what they were asked to be.
static void built(Src &s, Ctx &c)
{
	static char text[] = "some text";
	static const std::vector<unsigned> regs = {R0, R1, R7, FP, SP, LR, PC, DA, XX};
	int swi = s.chance(1, 2) ? (int)RVM_SWI_ID(s.below(256), s.below(256)) : -1;
	U op = swi < 0 ? s.below(256) : (U)RVM_OPSWI((U)swi);
	unsigned a = s.pick(regs), b = s.pick(regs), d = s.pick(regs), cond = s.below(8);
	U v = value(s);
	size_t len = s.below(sizeof text);
	double f = s.chance(1, 2) ? (double)(int64_t)v / 3 : 0.5;
	bool wc = s.chance(1, 2);
	unsigned kind = s.below(9);
	rvm_asmins_t i;
	rvmreg_t w;
	switch (kind) {
	default: i = wc ? rvm_cond_asm(cond, op, a, b, d, v) : rvm_asm(op, a, b, d, v); rvm_reg_setunsigned(&w, v); break;
	case 1: i = wc ? rvm_cond_asml(cond, op, a, b, d, (long)v) : rvm_asml(op, a, b, d, (long)v); rvm_reg_setsigned(&w, (rword)v); break;
	case 2: i = wc ? rvm_cond_asmb(cond, op, a, b, d, (unsigned)v) : rvm_asmb(op, a, b, d, (unsigned)v); rvm_reg_setboolean(&w, (unsigned)v ? 1 : 0); break;
	case 3: i = wc ? rvm_cond_asmd(cond, op, a, b, d, f) : rvm_asmd(op, a, b, d, f); rvm_reg_setdouble(&w, f); break;
	case 4: i = wc ? rvm_cond_asmp(cond, op, a, b, d, text + len) : rvm_asmp(op, a, b, d, text + len); rvm_reg_setpointer(&w, text + len); break;
	case 5: i = wc ? rvm_cond_asms(cond, op, a, b, d, v) : rvm_asms(op, a, b, d, v); rvm_reg_setunsigned(&w, v); w.type = RVM_DTYPE_SWIID; break;
	case 6: i = wc ? rvm_cond_asmf(cond, op, a, b, d, v) : rvm_asmf(op, a, b, d, v); rvm_reg_setunsigned(&w, v); w.type = RVM_DTYPE_FUNCTION; break;
	case 7: i = wc ? rvm_cond_asm2(cond, op, a, b, d, (ruint32)v, (ruint32)len) : rvm_asm2(op, a, b, d, (ruint32)v, (ruint32)len); rvm_reg_setpair(&w, (ruint32)v, (ruint32)len); break;
	case 8: i = wc ? rvm_cond_asma(cond, op, a, b, d, text, len) : rvm_asma(op, a, b, d, text, len); rvm_reg_setstrptr(&w, text, (unsigned)len); break;
	}
	std::string who = cat("instruction of kind ", kind, wc ? " with a condition" : "");
	c.check(i.opcode == (op & 255) && i.swi == (swi < 0 ? 0 : swi), cat(who, ": operation ", (int)i.opcode, "/", (int)i.swi, " where ", op & 255, "/", swi < 0 ? 0 : swi, " was asked for"));
	c.check(i.op1 == a && i.op2 == b && i.op3 == d, cat(who, ": operands ", (int)i.op1, " ", (int)i.op2, " ", (int)i.op3, " instead of ", a, " ", b, " ", d));
	c.check(!!i.da == (a == DA || b == DA || d == DA), cat(who, ": the flag for immediate data is ", (int)i.da));
	c.check(i.cond == (wc ? cond : 0), cat(who, ": condition ", (int)i.cond));
	c.check(i.data.v.w == w.v.w && i.data.type == w.type && (kind != 8 || i.data.size == len), cat(who, ": the data is ", i.data.v.w, "/", i.data.type, " instead of ", w.v.w, "/", w.type));
}

static void run(Src &s, Ctx &c)
{
	// The position of the program, its memory and its stack are the same for both interpreters.
	static std::vector<rvm_asmins_t> code(CODE);
	std::vector<uint8_t> membuf(MEM + 8);
	U stacksize = s.chance(1, 4) ? 1 + s.below(20) : 20 + s.below(60);
	rvmcpu_t *cpu = rvm_cpu_create(stacksize);
	struct Close { rvmcpu_t *c; ~Close() { rvm_cpu_destroy(c); } } close{cpu};
	int t0 = rvm_cpu_addswitable(cpu, "t0", T1), t1 = rvm_cpu_addswitable(cpu, "t1", T1);
	if (rvm_cpu_addswitable(cpu, "t0", T0) != t0) c.fail("adding a table again under its name gave it another number");
	c.check(t0 == 0 && t1 == 1, cat("tables were numbered ", t0, " and ", t1));
	c.check(rvm_cpu_setophandler(cpu, OP_USERA, "usera", swi_d) == 0, "setting the handler of an operation failed");
	c.check(rvm_cpu_setophandler(cpu, RVM_COUNT + s.below(1000), "x", swi_d) != 0, "setting the handler of an operation out of range succeeded");
	Machine m;
	m.code0 = (U)code.data(); m.mem0 = (U)membuf.data(); m.stack0 = (U)cpu->stack; m.stacksize = stacksize;
	m.mem.resize(MEM); m.stack.resize(stacksize); m.stackknown.resize(stacksize);
	for (size_t k = 0; k < MEM; k++) m.mem[k] = membuf[k] = k % 3 ? (uint8_t)s.below(256) : (uint8_t)k;
	std::vector<rvmreg_t> init(RLST);
	for (unsigned k = 0; k < 11; k++) {
		rvmreg_t x;
		rvm_reg_setunsigned(&x, s.chance(1, 8) ? 0 : value(s));
		if (k == FP) x.v.w = s.below(stacksize);
		if (s.chance(1, 6)) rvm_reg_settype(&x, RVM_DTYPE_SIGNED);
		c.check(rvm_cpu_setreg(cpu, k, &x) == 0, "setting a register failed");
		m.r[k].v = x.v.w; m.r[k].type = x.type;
		c.check(rvm_cpu_getreg(cpu, k)->v.w == x.v.w && rvm_cpu_getreg(cpu, k)->type == x.type, "a register does not hold what it was given");
	}
	c.check(!rvm_cpu_getreg(cpu, RLST + s.below(20)), "there is a register past the last");
	{ rvmreg_t x; rvm_reg_setunsigned(&x, 1); c.check(rvm_cpu_setreg(cpu, RLST + s.below(20), &x) != 0, "a register past the last was set"); }
	{ U sp = s.chance(1, 3) ? stacksize - 1 - s.below(std::min<U>(stacksize, 4)) : 0;
	  rvmreg_t x; rvm_reg_setunsigned(&x, sp); rvm_cpu_setreg(cpu, SP, &x); m.r[SP].v = sp; }
	U status = s.below(32);
	cpu->status = status; m.status = status;

	// run the reference, writing the program where it gets to a place that has no instruction yet
	std::vector<char> set(CODE);
	size_t off = s.chance(1, 6) ? s.below(4) : 0;
	size_t len = 3 + s.below(c.thorough ? CODE - 4 : 30), steps = 0;
	m.r[PC].v = m.code0 + off * sizeof(rvm_asmins_t);
	std::string prog;
	size_t jumps = 0;
	while (!m.abort) {
		U rel = m.r[PC].v - m.code0;
		if (rel >= CODE * sizeof(rvm_asmins_t) || rel % sizeof(rvm_asmins_t)) throw Discard();
		size_t pos = rel / sizeof(rvm_asmins_t);
		if (!set[pos]) {
			code[pos] = gen(s, m, pos, pos >= off + len || pos >= CODE - 2 || steps > 400);
			set[pos] = 1;
		}
		if (++steps > 1500) throw Discard();
		U before = m.r[PC].v;
		m.step(code[pos]);
		if (m.r[PC].v != before + sizeof(rvm_asmins_t)) jumps++;
	}
	rvm_asmins_t ext = rvm_asm(RVM_EXT, XX, XX, XX, 0);
	for (size_t k = 0; k < CODE; k++) {
		if (set[k]) prog += show(code[k], k, m);
		else code[k] = ext;
	}
	std::string regs;
	for (unsigned k = 0; k < 12; k++) { char b[64]; snprintf(b, sizeof b, "%s=0x%lx/%u ", regname(k), (unsigned long)cpu->r[k].v.w, cpu->r[k].type); regs += b; }
	c.describe(cat("stack of ", stacksize, ", start at ", off, ", status ", st(status), "\n", regs, "\n", prog));
	for (unsigned o : m.used) c.tag(cat("op", o));
	if (steps >= 5 && m.used.size() >= 4) c.nontrivial = true;
	if (m.error) c.tag(cat("error", m.error));
	if (jumps) c.tag("jumps");

	Log log;
	g_log = &log;
	bool debug = s.chance(1, 16);
	int ret;
	if (debug) {
		c.tag("debug");
		fflush(stdout);
		int keep = dup(1), nul = open("/dev/null", O_WRONLY);
		dup2(nul, 1);
		ret = rvm_cpu_exec_debug(cpu, code.data(), off);
		fflush(stdout);
		dup2(keep, 1); ::close(keep); ::close(nul);
	} else {
		ret = rvm_cpu_exec(cpu, code.data(), off);
	}
	c.check(ret == (m.error ? -1 : 0), cat("the program returned ", ret, ", error ", cpu->error, ", where the reference has error ", m.error));
	c.check(cpu->error == m.error, cat("error ", cpu->error, " instead of ", m.error));
	c.check(log.v == m.log.v, "the calls made by the program are not those of the reference");
	for (unsigned k = 0; k < RLST; k++) {
		if (k == PC || (m.unspec >> k & 1)) continue;
		const rvmreg_t &x = cpu->r[k];
		char b[200];
		snprintf(b, sizeof b, "%s is 0x%lx (type %u), by the reference 0x%llx (type %u)", regname(k), (unsigned long)x.v.w, x.type, (unsigned long long)m.r[k].v, m.r[k].type);
		c.check(x.v.w == m.r[k].v && x.type == m.r[k].type, b);
	}
	c.check(((cpu->status ^ m.status) & 31 & ~m.cmask) == 0, cat("status ", st(cpu->status), " instead of ", st(m.status)));
	for (size_t k = 0; k < MEM; k++) c.check(membuf[k] == m.mem[k], cat("byte ", k, " of the memory is ", (int)membuf[k], " instead of ", (int)m.mem[k]));
	for (size_t k = 0; k < stacksize; k++) {
		if (!m.stackknown[k]) continue;
		rvmreg_t x = ((rvmreg_t*)cpu->stack)[k];
		c.check(x.v.w == m.stack[k].v && x.type == m.stack[k].type, cat("slot ", k, " of the stack holds ", x.v.w, "/", x.type, " instead of ", m.stack[k].v, "/", m.stack[k].type));
	}
	built(s, c);
	// lookups
	static const std::vector<std::string> names = {"alpha", "beta", "gamma", "delta", "alph", "alphaa", "", "t0"};
	std::string nm = s.pick(names);
	int tab = s.below(4);
	int want = -1;
	rvm_switable_t *tabs[] = {T0, T1};
	for (int t = 0; t < 2 && want < 0; t++)
		if (tab == 0 || tab == t + 1) for (int k = 0; tabs[t][k].name; k++) if (nm == tabs[t][k].name) { want = RVM_SWI_ID(t, k); break; }
	const char *tn[] = {0, "t0", "t1", "t2"};
	std::string padded = nm + (s.chance(1, 2) ? "zzz" : "");
	int got = rvm_cpu_swilookup(cpu, tn[tab], padded.c_str(), nm.size());
	c.check(got == want, cat("looking up ", quote(nm), " in table ", tn[tab] ? tn[tab] : "(any)", " gave ", got, " instead of ", want));
	c.check(rvm_cpu_swilookup_s(cpu, tn[tab], nm.c_str()) == want, cat("looking up ", quote(nm), " in table ", tn[tab] ? tn[tab] : "(any)", " gave another number than ", want));
}

int main(int argc, char **argv)
{
	Config cfg;
	cfg.id = "V01";
	cfg.rule = "A case is a program of up to 44 instructions (arithmetic, logic, shifts, comparisons, memory, stack, branches, jumps, calls into tables and handlers, errors), written while a reference interpreter "
		"written from the instruction descriptions executes it so that most instructions are meaningful in the state they run in; the machine then runs it from the same state, and registers, types, status, error, memory, stack and "
		"the calls made must agree. Non-trivial: at least 5 steps over at least 4 different operations.";
	cfg.quick_cases = 150000;
	cfg.thorough_cases = 6000000;
	cfg.fn = run;
	cfg.assumptions = {"shift counts are below 64 (the machine does not say what longer shifts give); the N flag after LSR and LSRS and the C flag after a rotation by 0 are not specified and are not compared",
		"an order to store several registers that fits, but leaves fewer than 16 free slots, may be refused or not"};
	return run_main(argc, argv, cfg);
}
