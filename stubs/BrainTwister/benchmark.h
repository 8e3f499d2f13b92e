// Stand-in for BrainTwister/benchmark.h (not installed here): runs the function a given number of times.
#pragma once
#include <chrono>
#include <string>
#include <utility>
#include <vector>
/// average times in nanoseconds the next measurements report (a harness supplies them; zero without)
inline std::vector<long long>& svf_average_times() { static std::vector<long long> t; return t; }
namespace BrainTwister {
typedef std::chrono::high_resolution_clock myclock;
struct Benchmark {
    struct Settings { int repetitions; Settings() : repetitions(1) {} template <class Tree, class = decltype(std::declval<Tree const&>().template get<int>(std::string()))> explicit Settings(Tree const& t) : repetitions(t.get(std::string("repetitions"), 1)) {} };
    struct Result { myclock::duration average_time{0}; };
    Settings settings;
    Benchmark(Settings const& s = Settings()) : settings(s) {}
    template <class F> Result benchIt(F f) const { for (int i = 0; i < settings.repetitions; ++i) f(); Result r; auto& t = svf_average_times(); if (!t.empty()) { r.average_time = std::chrono::duration_cast<myclock::duration>(std::chrono::nanoseconds(t.front())); t.erase(t.begin()); } return r; }
};
}
