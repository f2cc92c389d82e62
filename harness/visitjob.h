// What a traversal site gets from the workload (C03); independent of the library's headers.
#ifndef HX_VISITJOB_H
#define HX_VISITJOB_H
#include <cstdint>
#include <string>
#include <vector>
namespace hx {
struct Visit { uint64_t blade; uint64_t value; int bsrc, vsrc; };       // value: bits of the double
struct VisitJob {
    // the plan
    int kind = 0, at = -1, style = 0;                                     // what the callback does at call number `at`
    int id = 0;
    void (*nested)(VisitJob &) = nullptr;                                 // traversal made by the callback
    // what the site fills in
    std::vector<Visit> want;
    void (*again)(void const *, VisitJob &) = nullptr;                    // traverses the same object for another job
    void const *object = nullptr;
    // what happened
    std::vector<Visit> seen;
    bool preset_wrong = false, returned = false, result = false, done_wrong = false;
    int state_wrong = 0;
    char const *exc = nullptr;                                            // what left the call
    std::string what;
};
VisitJob &vjob();                                                         // of the current task
void on_visit(VisitJob &j, Visit const &v, int calls_of_object, bool &keep);
void check_visit(VisitJob &j);                                            // after the call; rethrows nothing
void classify(VisitJob &j);                                               // called in a handler
}
#endif
