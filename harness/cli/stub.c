/* The counters of the coverage-guided search are in the harness only. */
void __sanitizer_cov_trace_pc_guard_init(unsigned *a, unsigned *b) {}
void __sanitizer_cov_trace_pc_guard(unsigned *g) {}
void __sanitizer_cov_trace_cmp1(unsigned char a, unsigned char b) {}
void __sanitizer_cov_trace_cmp2(unsigned short a, unsigned short b) {}
void __sanitizer_cov_trace_cmp4(unsigned a, unsigned b) {}
void __sanitizer_cov_trace_cmp8(unsigned long a, unsigned long b) {}
void __sanitizer_cov_trace_const_cmp1(unsigned char a, unsigned char b) {}
void __sanitizer_cov_trace_const_cmp2(unsigned short a, unsigned short b) {}
void __sanitizer_cov_trace_const_cmp4(unsigned a, unsigned b) {}
void __sanitizer_cov_trace_const_cmp8(unsigned long a, unsigned long b) {}
void __sanitizer_cov_trace_switch(unsigned long v, unsigned long *c) {}
