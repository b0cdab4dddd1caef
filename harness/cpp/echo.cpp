// receives packages built by Python, reads them as the core does and sends them back as the core does
#include <cstddef>
#include <list>
#include <string>
#include <vector>
#include <pyclustering/interface/pyclustering_package.hpp>
template <class T> static pyclustering_package * one(pyclustering_package * p) { try { std::vector<T> v; p->extract(v); return create_package(&v); } catch (...) { return nullptr; } }
template <class T> static pyclustering_package * two(pyclustering_package * p) { try { std::vector<std::vector<T>> v; p->extract(v); return create_package(&v); } catch (...) { return nullptr; } }
template <class T> static pyclustering_package * ptr(pyclustering_package * p) {
    try { std::vector<std::vector<T>> v; p->extract(v); std::vector<std::vector<T> *> w; for (auto & x : v) w.push_back(&x); return create_package(&w); } catch (...) { return nullptr; } }
template <class T> static pyclustering_package * elem(pyclustering_package * p) {          // element by element
    try { std::vector<std::vector<T>> v(p->size); for (std::size_t i = 0; i < p->size; i++) for (std::size_t j = 0; j < p->at<pyclustering_package *>(i)->size; j++) v[i].push_back(p->at<T>(i, j)); return create_package(&v); } catch (...) { return nullptr; } }
#define E(T, N) \
    extern "C" pyclustering_package * one_##N(pyclustering_package * p) { return one<T>(p); } \
    extern "C" pyclustering_package * two_##N(pyclustering_package * p) { return two<T>(p); } \
    extern "C" pyclustering_package * ptr_##N(pyclustering_package * p) { return ptr<T>(p); } \
    extern "C" pyclustering_package * elem_##N(pyclustering_package * p) { return elem<T>(p); }
E(double, double) E(long, long) E(std::size_t, size_t) E(int, int) E(float, float) E(unsigned int, unsigned)
extern "C" pyclustering_package * both_double(pyclustering_package * p) {                  // a container with the value twice
    try { std::vector<std::vector<double>> v; p->extract(v); auto * c = create_package_container(2); for (int i = 0; i < 2; i++) ((pyclustering_package **) c->data)[i] = create_package(&v); return c; } catch (...) { return nullptr; } }
extern "C" pyclustering_package * text(const char * s) { std::string t(s); return create_package(t); }
extern "C" pyclustering_package * raw(const char * s) { return create_package(s); }
extern "C" void release(pyclustering_package * p) { delete p; }
