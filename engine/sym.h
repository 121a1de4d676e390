// Harness API, shadow-aware under the symbolic runtime, file-driven under the replay runtime.
#pragma once
extern "C" {
long sym_int(const char*name,long lo,long hi);
int sym_int32(const char*name,int lo,int hi);
bool sym_bool(const char*name);
int sym_choice(const char*name,int n);
double sym_dyadic(const char*name,long lo,long hi,int log2scale);
void sym_assume(bool c);
void sym_assert(bool c,const char*msg);
void sym_observe(const char*name,long v);
void sym_observe_d(const char*name,double v);
long sym_ite(bool c,long a,long b);
long sym_conc(long v);
void sym_reach(const char*label);
long sym_token(const char*text,int log2scale); // the number (times 2^log2scale) that was written to a stream as `text`
void sym_dir(); // from here on the path has a fresh working directory of its own
bool sym_replaying();
}
