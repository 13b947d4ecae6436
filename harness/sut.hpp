// The only part of the harness that touches the library's class and wrapper. Everything goes
// through the public interface; argument arrays have exactly the documented extents.
#pragma once
#include "ref.hpp"

struct Sut {
	virtual ~Sut() {}
	virtual void set_strain(int gp, const double *e) = 0;
	virtual void homogenize() = 0;
	virtual void update() = 0;
	virtual void stress(int gp, double *s) = 0;
	virtual void ctan(int gp, double *c) = 0;
	virtual int nl(int gp) = 0;
	virtual void output(int step, int gp) = 0;
	virtual void info() = 0;
	// class only; -1 / false where the class does not offer the member publicly
	virtual int is_linear(const double *) { return -1; }
	virtual bool ave_strain(double *) { return false; }
	virtual bool ave_stress(double *) { return false; }
};
// kind 0: C++ class, 1: Fortran wrapper (one global object; construction replaces it)
extern "C" Sut *sut_new(const ref::Config *c, int kind);
extern "C" void sut_dirty_stack(int byte);
