// Entry point and the calling-convention globals; compiled without instrumentation.
extern "C" {
unsigned __sx_args[64];
unsigned __sx_ret[16];
void* __sx_callee;
void* __sx_retfn;
void* __sx_byval[64];
int sx_main(int, char**);
}
int main(int c, char** v) { return sx_main(c, v); }
