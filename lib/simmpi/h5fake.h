// Explorer-side view of the fake HDF5 store.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace h5 {
struct Obj { // group, dataset or attribute
  char kind = 'g';
  long type = 0;
  bool scalar = false;
  std::vector<unsigned long long> dims;
  std::vector<char> data;
  std::set<int> creators;
  std::map<std::string, std::shared_ptr<Obj>> child, attr;
};
struct File { std::shared_ptr<Obj> root; std::set<int> creators; };
extern std::map<long, std::shared_ptr<File>> store; // by id written in the placeholder file
std::shared_ptr<Obj> load(const std::string & filename); // root group or null
void save(const std::string & filename, std::shared_ptr<Obj> root);
std::shared_ptr<Obj> dset_d(const std::vector<double> & v);
std::shared_ptr<Obj> dset_l(const std::vector<long> & v);
std::shared_ptr<Obj> dset_i(const std::vector<int> & v);
std::vector<double> as_d(const std::shared_ptr<Obj> & o);
std::vector<long> as_l(const std::shared_ptr<Obj> & o);
void reset();         // forget all files and handles
void freeze(const std::string & path); // keep the store in a file, across processes
void thaw(const std::string & path);
extern long crash_at; // end the process (exit code 77) before the nth change, counted over all ranks; -1 never
extern std::string crash_file; // frozen to before that
extern long changes;  // changes so far
int open_handles();
}
