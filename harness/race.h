// Records what orders threads, and their accesses to memory they share.
#pragma once
#include <string>

namespace race {

void init();       // Before the process forks.
void start();
void stop();
bool too_long();   // The recording is not complete.
// The recording, reduced to what matters: accesses to memory that more than
// one thread touches and at least one writes, and operations on objects that
// more than one thread uses. Members of a JSON list; "" if there are none.
std::string events();
int nr_threads();
int nr_objects();
int nr_locations();

} // namespace race
