#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct El { int key, from, to, idx; double pay; bool operator==(const El & o) const { return key == o.key && from == o.from && to == o.to && idx == o.idx && pay == o.pay; } };
struct CCase {
  char op = 'P';
  int n = 1, variant = 0;
  std::vector<std::vector<int>> key;   // psort: keys per rank
  std::vector<std::vector<int>> cnt;   // exchange: cnt[i][j] elements from i to j
  std::vector<std::vector<double>> val;// reductions: val[rank]
  std::string file;
};
struct CRes { std::vector<El> out; std::vector<int> count; std::vector<double> red; std::vector<std::vector<El>> per; std::string text; };
using coll_entry_t = void (*)(int, const CCase *, CRes *);
