#include "race.h"
#include "ctl.h"
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>

namespace race {
namespace {

struct Entry { char kind; std::uint8_t thread; std::uint16_t size;
    std::uintptr_t address; };
std::size_t const capacity = 1500000;
struct Storage { std::size_t size; Entry entries[capacity]; };
Storage* all = nullptr;
int threads_ = 0, objects_ = 0, locations_ = 0;

void record(char kind, void const* object, int size)
{
    int const thread = sched::self();
    if(thread < 0 || all->size > capacity) { return; }
    if(all->size == capacity) { ++all->size; return; }
    Entry& e = all->entries[all->size++];
    e.kind = kind; e.thread = thread; e.size = size;
    e.address = reinterpret_cast<std::uintptr_t>(object);
}

struct Word { std::uint64_t threads = 0; bool written = false; };

} // namespace

void init()
{
    all = static_cast<Storage*>(mmap(nullptr, sizeof(Storage),
        PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1,
        0));
    all->size = 0;
}

void start() { all->size = 0; sched::on_event = record; }
void stop() { sched::on_event = nullptr; }
bool too_long() { return all->size > capacity; }
int nr_threads() { return threads_; }
int nr_objects() { return objects_; }
int nr_locations() { return locations_; }

std::string events()
{
    std::size_t const n = std::min(all->size, capacity);
    std::unordered_map<std::uintptr_t, Word> words;
    std::unordered_map<std::uintptr_t, std::uint64_t> users;
    threads_ = 1;
    for(std::size_t i = 0; i < n; ++i) {
        Entry const& e = all->entries[i];
        std::uint64_t const bit = 1ull << e.thread;
        threads_ = std::max<int>(threads_, e.thread + 1);
        if(e.kind == 'A' || e.kind == 'L') { users[e.address] |= bit; continue; }
        for(auto w = e.address / 8; w <= (e.address + e.size - 1) / 8; ++w) {
            words[w].threads |= bit;
            words[w].written |= e.kind == 'W';
        }
    }
    auto shared = [](std::uint64_t t) { return (t & (t - 1)) != 0; };
    // The bytes of interest, and a signature of the accesses to each.
    std::map<std::uintptr_t, Word> bytes;
    std::map<std::uintptr_t, std::uint64_t> signature;
    for(std::size_t i = 0; i < n; ++i) {
        Entry const& e = all->entries[i];
        if(e.kind == 'A' || e.kind == 'L') { continue; }
        for(auto a = e.address; a < e.address + e.size; ++a) {
            Word const& w = words[a / 8];
            if(!w.written || !shared(w.threads)) { continue; }
            bytes[a].threads |= 1ull << e.thread;
            bytes[a].written |= e.kind == 'W';
            signature[a] = (signature[a] ^ (i + 1)) * 0x9E3779B97F4A7C15ull;
        }
    }
    std::map<std::uint64_t, int> locations;
    std::unordered_map<std::uintptr_t, int> location;
    for(auto const& b: bytes) {
        if(!b.second.written || !shared(b.second.threads)) { continue; }
        auto it = locations.insert({signature[b.first],
            int(locations.size()) + 1}).first;
        location[b.first] = it->second;
    }
    locations_ = locations.size();
    std::unordered_map<std::uintptr_t, int> objects;
    // Accesses since the thread's last release need to be seen once.
    std::vector<std::set<int>> read(threads_), written(threads_);
    std::string text;
    auto emit = [&](char kind, int t, int w) {
        text += text.empty() ? "" : ",";
        text += std::string("{\"e\":\"") + kind + "\",\"t\":" +
            std::to_string(t) + ",\"w\":" + std::to_string(w) +
            ",\"r\":\"\",\"v\":0,\"now\":0}";
    };
    for(std::size_t i = 0; i < n; ++i) {
        Entry const& e = all->entries[i];
        if(e.kind == 'A' || e.kind == 'L') {
            if(!shared(users[e.address])) { continue; }
            int const id = objects.insert({e.address,
                int(objects.size()) + 1}).first->second;
            if(e.kind == 'L') { read[e.thread].clear(); written[e.thread].clear(); }
            emit(e.kind, id, e.thread);
            continue;
        }
        std::set<int> ids;
        for(auto a = e.address; a < e.address + e.size; ++a) {
            auto it = location.find(a);
            if(it != location.end()) { ids.insert(it->second); }
        }
        for(int id: ids) {
            auto& done = e.kind == 'W' ? written : read;
            if(done[e.thread].insert(id).second) { emit(e.kind, id, e.thread); }
        }
    }
    objects_ = objects.size();
    return text;
}

} // namespace race
