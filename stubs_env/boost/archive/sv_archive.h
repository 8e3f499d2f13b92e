#pragma once
#include <string>
void svf_archive(bool load, const char* kind, std::string const& file, const char* name, void* object);
struct sv_archive {
    std::string file; explicit sv_archive(std::string const& f) : file(f) {}
    template <class T> void io(const char* k, T const& t) { svf_archive(true, k, file, t.name(), (void*)&t.value()); }
    template <class T> void oo(const char* k, T const& t) { svf_archive(false, k, file, t.name(), (void*)&t.const_value()); }
};
