// reads one call from stdin and makes it with exact-size heap buffers (built with the address and undefined sanitizers)
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>
#include <cstdint>
extern "C" void __lsan_do_leak_check();
extern "C" const char* __asan_default_options() { return "detect_leaks=1:exitcode=77:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=0"; }
typedef unsigned long u64;
static std::vector<uint8_t> unhex(const std::string& s)
{
    std::vector<uint8_t> r;
    for(size_t i = 1; i + 1 < s.size(); i += 2) r.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), 0, 16));
    return r;
}
int main()
{
    std::string fn, k;
    std::cin >> fn;
    std::vector<u64> a; std::vector<uint8_t*> buf; std::vector<size_t> len; std::vector<void*> extra;
    while(std::cin >> k)
    {
        uint8_t* b = nullptr; size_t n = 0;
        if(k == "i") { u64 v; std::cin >> v; a.push_back(v); }
        else if(k == "b") { std::string h; std::cin >> h; auto d = unhex(h); n = d.size(); b = (uint8_t*)malloc(n); if(n) memcpy(b, d.data(), n); a.push_back((u64)b); }
        else if(k == "r") { size_t j; std::cin >> j; b = buf[j]; n = len[j]; a.push_back((u64)b); }
        else if(k == "p")
        {
            size_t c; std::cin >> c; void** t = (void**)malloc(c * sizeof(void*)); extra.push_back(t);
            for(size_t i = 0; i < c; i++) { std::string h; std::cin >> h; auto d = unhex(h); void* x = malloc(d.size()); if(d.size()) memcpy(x, d.data(), d.size()); t[i] = x; extra.push_back(x); }
            a.push_back((u64)t);
        }
        buf.push_back(b); len.push_back(n);
    }
    a.resize(14);
    void* f = dlsym(RTLD_DEFAULT, fn.c_str());
    if(!f) { fprintf(stderr, "no function %s\n", fn.c_str()); return 3; }
    u64 r;
    try
    {
        r = ((u64(*)(u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64))f)(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13]);
    }
    catch(...) { printf("T\n"); fflush(stdout); _Exit(0); }
    printf("R %lu\n", r);
    for(size_t i = 0; i < buf.size(); i++)
    {
        if(!buf[i]) { printf("-\n"); continue; }
        printf("B ");
        for(size_t j = 0; j < len[i]; j++) printf("%02x", buf[i][j]);
        printf("\n");
    }
    fflush(stdout);
    for(size_t i = 0; i < buf.size(); i++) { bool dup = false; for(size_t j = 0; j < i; j++) dup |= buf[j] == buf[i]; if(buf[i] && !dup) free(buf[i]); }
    for(auto x : extra) free(x);
    buf.clear(); extra.clear(); a.assign(a.size(), 0);
    return 0;
}
