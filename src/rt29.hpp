#ifndef RT29
#define RT29
#include <vector>
#include <functional>
#include <cstddef>
namespace sch {
enum { NAR = 6 };
struct Conflict { char* addr; size_t size; void* where; bool shared; };
void init(); void arena(int k); size_t used(int k); char* start(int k);
// runs f alone in arena ar; returns the writes to memory that is not its own
std::vector<Conflict> solo(int ar, std::function<void()> const& f, long* points);
// runs the operations on threads; at the visible points listed in sw the running thread is preempted; returns the number of visible points
long run(std::vector<std::function<void()>>& fs, std::vector<long> const& sw, std::vector<Conflict>* conf);
// the result of an operation, copied out of its arena
void keep(int k, const char* s, size_t n); const char* kept(int k);
}
#endif
