#include <cstdlib>
#include <cstdint>
#include <new>
extern "C" int main_sx(int argc, char **argv);
extern "C" void sx_clear(void *, uint64_t);
// recycled heap memory must not keep shadows of its previous life
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); sx_clear(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
int main(int argc, char **argv) { return main_sx(argc, argv); }
