// C17, C18: the C++ interface, used as a program would use it.
#include <adv/AContext.hpp>
#include <adv/ADouble.hpp>
#include <new>
#include <utility>
#include <vector>

using adv::AContext;
using adv::ADouble;

extern "C" {
// called while the context of the moment is alive
void cx_look(void);

static ADouble binary(unsigned op, const ADouble& a, const ADouble& b)
{
	switch (op) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	case 3: return a / b;
	case 4: return adv::min(a, b);
	default: return adv::max(a, b);
	}
}
static ADouble left(unsigned op, double a, const ADouble& b)
{
	switch (op) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	case 3: return a / b;
	case 4: return adv::min(a, b);
	default: return adv::max(a, b);
	}
}
static ADouble right(unsigned op, const ADouble& a, double b)
{
	switch (op) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	case 3: return a / b;
	case 4: return adv::min(a, b);
	default: return adv::max(a, b);
	}
}
void cx_binary(unsigned op, unsigned form, double c, double d)
{
	AContext ctx;
	ADouble x = ctx.new_independent();
	ADouble y = ctx.new_independent();
	ADouble p(c), q(d);
	switch (form) {
	case 0: ctx.set_dependent(binary(op, x, y)); break;
	case 1: ctx.set_dependent(binary(op, y, x)); break;
	case 2: ctx.set_dependent(binary(op, x, x)); break;
	case 3: ctx.set_dependent(binary(op, x, p)); break;
	case 4: ctx.set_dependent(binary(op, p, y)); break;
	case 5: ctx.set_dependent(binary(op, p, q)); break;
	case 6: ctx.set_dependent(left(op, c, x)); break;
	case 7: ctx.set_dependent(left(op, c, q)); break;
	case 8: ctx.set_dependent(right(op, y, d)); break;
	default: ctx.set_dependent(right(op, p, d)); break;
	}
	cx_look();
}
static ADouble unary(unsigned f, const ADouble& x)
{
	switch (f) {
	case 0: return adv::sin(x);
	case 1: return adv::cos(x);
	case 2: return adv::tan(x);
	case 3: return adv::abs(x);
	case 4: return adv::exp(x);
	default: return adv::ln(x);
	}
}
void cx_unary(unsigned f, unsigned form, double c)
{
	AContext ctx;
	ADouble x = ctx.new_independent();
	ADouble y = ctx.new_independent();
	switch (form) {
	case 0: ctx.set_dependent(unary(f, x)); break;
	case 1: ctx.set_dependent(unary(f, y)); break;
	default: ctx.set_dependent(unary(f, ADouble(c))); break;
	}
	cx_look();
}
double cx_scalar(unsigned f, double a, double b)
{
	switch (f) {
	case 0: return adv::sin(a);
	case 1: return adv::cos(a);
	case 2: return adv::tan(a);
	case 3: return adv::abs(a);
	case 4: return adv::exp(a);
	case 5: return adv::ln(a);
	case 6: return adv::min(a, b);
	default: return adv::max(a, b);
	}
}
// registration: `n` independents, dependents as told
void cx_register(unsigned n, const unsigned* deps, unsigned m, double c)
{
	AContext ctx;
	std::vector<ADouble> v;
	for (unsigned i = 0; i < n; i++)
		v.push_back(ctx.new_independent());
	v.push_back(ADouble(c));
	for (unsigned i = 0; i < m; i++)
		ctx.set_dependent(v[deps[i]]);
	cx_look();
}
// a program of several steps: step i applies code[3i] to the variables code[3i+1] and code[3i+2]
void cx_program(unsigned n, const unsigned* code, unsigned k, double c)
{
	AContext ctx;
	std::vector<ADouble> v;
	for (unsigned i = 0; i < n; i++)
		v.push_back(ctx.new_independent());
	v.push_back(c);
	for (unsigned i = 0; i < k; i++) {
		unsigned op = code[3 * i];
		const ADouble& a = v[code[3 * i + 1]];
		const ADouble& b = v[code[3 * i + 2]];
		v.push_back(op < 6 ? binary(op, a, b) : unary(op - 6, a));
	}
	for (unsigned i = n; i < v.size(); i++)
		ctx.set_dependent(v[i]);
	cx_look();
}

// ---- ownership: a few variables and contexts by address ----
static ADouble* vars[4];
static AContext* ctxs[2];

static ADouble give(const ADouble& x) { return x; }
static ADouble pass(ADouble x) { return x; }

void cx_act(unsigned act, unsigned i, unsigned j, double c)
{
	switch (act) {
	case 0: vars[i] = new ADouble(); break;
	case 1: vars[i] = new ADouble(c); break;
	case 2: vars[i] = new ADouble(*vars[j]); break;
	case 3: vars[i] = new ADouble(std::move(*vars[j])); break;
	case 4: *vars[i] = *vars[j]; break;
	case 5: *vars[i] = std::move(*vars[j]); break;
	case 6: delete vars[i]; vars[i] = nullptr; break;
	case 7: *vars[i] = *vars[i] - *vars[j]; break;
	case 8: *vars[i] = c; break;
	case 9: std::swap(*vars[i], *vars[j]); break;
	case 10: *vars[i] = pass(give(*vars[j])); break;
	case 11: *vars[i] = c * *vars[j]; break;
	}
}
void cx_ctx(unsigned act, unsigned i, unsigned j)
{
	switch (act) {
	case 0: ctxs[i] = new AContext(); break;
	case 1: ctxs[i] = new AContext(std::move(*ctxs[j])); break;
	case 2: *ctxs[i] = std::move(*ctxs[j]); break;
	case 3: delete ctxs[i]; ctxs[i] = nullptr; break;
	case 4: *vars[j] = ctxs[i]->new_independent(); break;
	case 5: ctxs[i]->set_dependent(*vars[j]); break;
	}
}
// the value of a variable, as a dependent of a fresh context
void cx_value(unsigned i)
{
	AContext ctx;
	ctx.set_dependent(*vars[i]);
	cx_look();
}
// containers move and copy elements
void cx_vector(unsigned n, unsigned drop, const double* c)
{
	AContext ctx;
	{
		std::vector<ADouble> v;
		for (unsigned i = 0; i < n; i++)
			v.push_back(c[i]);
		std::vector<ADouble> w = v;
		v.erase(v.begin() + drop);
		w = std::move(v);
		v = w;
		w.clear();
		for (unsigned i = 0; i < v.size(); i++)
			ctx.set_dependent(v[i]);
	}
	cx_look();
}
}
