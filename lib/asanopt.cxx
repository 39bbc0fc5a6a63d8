// The cells have no /proc, where the sanitizer runtime reads its options from: build them in.
extern "C" {
const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:malloc_context_size=5:detect_odr_violation=0:"
         "max_allocation_size_mb=1024";
}
const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
}
