// Datasets of the language: files of features with attributes, written and
// read by way of drivers. Everything is written in a scratch directory, which
// is removed at the end.
#include <cassert>
#include <string>
#include <vector>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <gdal_priv.h>
#include <hdf5.h>
#include "fern/core/exception.h"
#include "fern/core/io_error.h"
#include "fern/core/data_name.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/core/constant_attribute.h"
#include "fern/language/interpreter/dataset_source.h"
#include "fern/language/interpreter/dataset_sync.h"
#include "fern/language/io/core/file.h"
#include "fern/language/io/drivers.h"
#include "fern/language/io/fern/fern_client.h"
#include "fern/language/io/fern/fern_dataset.h"
#include "fern/language/io/fern/fern_driver.h"
#include "fern/language/io/fern/hdf5_client.h"
#include "fern/language/io/gdal/gdal_client.h"
#include "fern/language/io/gdal/gdal_dataset.h"
#include "fern/language/io/gdal/gdal_driver.h"
#include "fern/language/io/io_client.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/std/read.h"
#include "fern/language/operation/std/write.h"
#include "events.h"

namespace {

using namespace ev;
namespace fl = fern::language;
namespace fs = std::filesystem;
using fl::OpenMode;

std::string scratch;
struct Hdf5: public fl::HDF5Client {};
struct Fern: public fl::FernClient {};
struct Gdal: public fl::GDALClient {};
struct Io: public fl::IOClient {};
std::unique_ptr<Hdf5> hdf5;
std::unique_ptr<Gdal> gdal;

// Only our own drivers.
struct Others
{
    std::map<std::string, std::shared_ptr<fl::Driver>> kept;
    Others() { kept.swap(fl::drivers); }
    ~Others() { kept.swap(fl::drivers); }
};

std::string list(std::vector<std::string> const& items)
{
    std::string t;
    for(auto const& x: items) {
        if(!t.empty()) t += ',';
        t += x;
    }
    return "[" + t + "]";
}

template<typename T>
std::string bits(T const& value)
{
    unsigned char bytes[sizeof(T)];
    std::memcpy(bytes, &value, sizeof(T));
    std::string t;
    for(size_t i = sizeof(T); i-- > 0;) {
        char two[3];
        std::snprintf(two, sizeof(two), "%02x", bytes[i]);
        t += two;
    }
    return t;
}

template<typename T>
T from_bits(uint64_t value)
{
    T t;
    std::memcpy(&t, &value, sizeof(T));
    return t;
}

#define TYPES(X) X(uint8_t, "uint8") X(uint16_t, "uint16") \
    X(uint32_t, "uint32") X(uint64_t, "uint64") X(int8_t, "int8") \
    X(int16_t, "int16") X(int32_t, "int32") X(int64_t, "int64") \
    X(float, "float32") X(double, "float64")

std::vector<std::string> const& types()
{
    static std::vector<std::string> const r{
#define NAME(T, n) n,
        TYPES(NAME)
#undef NAME
    };
    return r;
}

std::string described(fern::Exception const& e)
{
    return std::string(dynamic_cast<fern::IOError const*>(&e)
        ? "IOError " : "Exception ") + e.message();
}

char const* mode_name(OpenMode m)
{
    return m == OpenMode::READ ? "read" :
        m == OpenMode::UPDATE ? "update" : "overwrite";
}

// What a value is: its type and its bits.
void describe(Json& j, std::shared_ptr<fl::Attribute> const& a)
{
#define CASE(T, n) \
    if(auto c = std::dynamic_pointer_cast<fl::ConstantAttribute<T>>(a)) { \
        j.s("type", n); j.s("value", bits<T>(c->values().value())); return; \
    }
    TYPES(CASE)
#undef CASE
    j.s("type", "?"); j.s("value", "?");
}

std::shared_ptr<fl::Attribute> constant(
    std::string const& type, uint64_t value, std::string& text)
{
#define CASE(T, n) \
    if(type == n) { T const v = from_bits<T>(value); text = bits<T>(v); \
        return std::make_shared<fl::ConstantAttribute<T>>(v); }
    TYPES(CASE)
#undef CASE
    return nullptr;
}

uint64_t some_value(Rng& g, std::string const& type)
{
    if(type == "float32") {
        static std::vector<uint32_t> const v{0, 0x80000000u, 0x3f800000u,
            0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f7fffffu, 1u,
            0xc2280000u};
        return g.chance(70) ? g.pick(v) : 0x3f000000u + g.range(0, 0xffffff);
    }
    if(type == "float64") {
        static std::vector<uint64_t> const v{0, 0x8000000000000000ull,
            0x3ff0000000000000ull, 0x7ff0000000000000ull,
            0xfff0000000000000ull, 0x7ff8000000000000ull,
            0x7fefffffffffffffull, 1ull, 0xc045000000000000ull};
        return g.chance(70) ? g.pick(v)
            : 0x3fe0000000000000ull + (g.next() >> 12);
    }
    static std::vector<uint64_t> const v{0, 1, ~0ull, 0x7f7f7f7f7f7f7f7full,
        0x8080808080808080ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
        5};
    return g.chance(60) ? g.pick(v) : g.next();
}

struct Content
{
    std::set<std::string> groups, attributes;
    std::map<std::string, std::string> types;
};

std::string joined(std::vector<std::string> const& names)
{
    std::string t;
    for(auto const& n: names) t += "/" + n;
    return t;
}

// Of features, and of attributes.
std::string feature_name(Rng& g)
{
    static std::vector<std::string> const names{"a", "b",
        "the elevation_of_the_land_above_mean_sea_level"};
    return g.pick(names);
}
std::string attribute_name(Rng& g)
{
    static std::vector<std::string> const names{"x", "y",
        "the_speed_of_the wind-at_10_m_above_the_surface_during_storms"};
    return g.pick(names);
}

std::vector<std::string> parts(std::string const& path)
{
    std::vector<std::string> r;
    std::string name;
    for(char x: path.substr(1) + "/") {
        if(x == '/') { r.push_back(name); name.clear(); }
        else name += x;
    }
    return r;
}

std::vector<std::string> feature_path(Rng& g, int least=1)
{
    std::vector<std::string> r;
    int const n = g.range(least, g.chance(30) ? 3 : 2);
    for(int i = 0; i < n; ++i) {
        r.push_back(feature_name(g));
    }
    return r;
}

std::string spelled(Rng& g, std::vector<std::string> const& names)
{
    std::string const t = joined(names);
    return t.empty() ? "/" : g.chance(50) ? t : t.substr(1);
}

void write_text(std::string const& name, std::string const& text)
{
    std::ofstream s(name);
    s << text;
}

// Histories of the datasets of some files.
void store(Rng& g)
{
    std::string const dir = "s" + std::to_string(g.index);
    fs::remove_all(dir);
    fs::create_directory(dir);
    bool const whole = g.chance(50);
    std::string const base = (whole ? scratch + "/" : std::string()) + dir;
    // Names and what is there at first.
    std::vector<std::string> files, kinds;
    auto add = [&](std::string const& name, std::string const& kind) {
        files.push_back(base + "/" + name);
        kinds.push_back(kind);
        std::string const f = files.back();
        if(kind == "text") write_text(f, "planets\n" + std::string(
            g.range(0, 2000), 'x'));
        if(kind == "directory") fs::create_directory(f);
    };
    add("f.h5", "absent");
    add("g.gnr", "absent");
    add("h", g.chance(50) ? "absent" : "text");
    if(g.chance(60)) add("text.h5", "text");
    if(g.chance(30)) add("dir.h5", "directory");
    if(g.chance(30)) add("no/where.h5", "nowhere");

    Json head;
    head.s("op", "store").raw("files", str_list(files))
        .raw("kinds", str_list(kinds));
    begin(head);

    struct Open { std::shared_ptr<fl::Dataset> d; int file; OpenMode mode; };
    std::vector<Open> open;
    std::vector<bool> alive;
    std::map<int, Content> contents;
    std::vector<std::string> steps;
    Others others;
    std::unique_ptr<Fern> client(new Fern);
    fl::FernDriver driver;

    auto handles = [&](int f) {
        int n = 0;
        for(size_t h = 0; h < open.size(); ++h) {
            if(alive[h] && open[h].file == f) ++n;
        }
        return n;
    };

    int const n = g.range(3, g.chance(30) ? 60 : 24);
    int const exchanging = g.pick(std::vector<int>{0, 10, 60});
    for(int k = 0; k < n; ++k) {
        Json j;
        std::vector<int> live, writers;
        for(size_t h = 0; h < open.size(); ++h) if(alive[h]) {
            live.push_back(h);
            if(open[h].mode != OpenMode::READ) writers.push_back(h);
        }
        int what = g.range(0, 99);
        bool const exchange = g.chance(exchanging);
        if(live.empty()) what = what < 70 ? 0 : 99;
        else if(what < 20) what = live.size() < 4 ? 0 : 1;
        if(exchange) {
            int const f = g.chance(80) ? g.range(0, 1)
                : g.range(0, files.size() - 1);
            if(handles(f) > 0) continue;
            Content const& c = contents[f];
            std::vector<std::string> path = feature_path(g);
            path.push_back(attribute_name(g));
            if(!c.attributes.empty() && g.chance(60)) {
                auto it = c.attributes.begin();
                std::advance(it, g.range(0, c.attributes.size() - 1));
                path = parts(*it);
            }
            std::vector<std::string> up;
            bool fine = !c.groups.count(joined(path));
            for(size_t i = 0; i + 1 < path.size(); ++i) {
                up.push_back(path[i]);
                if(c.attributes.count(joined(up))) fine = false;
            }
            if(!fine) continue;
            std::string const how = g.pick(std::vector<std::string>{
                "write", "write", "read", "read", "source", "sync"});
            std::string text = spelled(g, path), result = "ok";
            if(g.chance(20)) text += "/";
            if(g.chance(20)) text.insert(text.find('/', 1), "/");
            std::string const name = files[f] + ":" + text;
            auto string = [](std::string const& v) {
                return std::make_shared<fl::AttributeArgument>(
                    std::make_shared<fl::ConstantAttribute<std::string>>(v));
            };
            j.s("do", "exchange").s("how", how).i("file", f)
                .raw("path", str_list(path)).s("text", joined(path));
            if(how == "write" || how == "sync") {
                std::string type = g.pick(types()), bits;
                if(c.types.count(joined(path))) {
                    type = c.types.at(joined(path));
                }
                std::shared_ptr<fl::Attribute> const a =
                    constant(type, some_value(g, type), bits);
                auto const data = std::make_shared<fl::AttributeArgument>(a);
                j.s("type", type).s("value", bits);
                try {
                    if(how == "write") {
                        if(fl::Write().execute({data, string(name),
                            string("Fern")}).size() != 0) result = "?";
                    }
                    else fl::DatasetSync(fern::DataName(name)).write(*data);
                }
                catch(fern::Exception const& e) { result = described(e); }
                if(result == "ok") {
                    Content& w = contents[f];
                    if(how == "sync") w = Content();
                    up.clear();
                    for(size_t i = 0; i + 1 < path.size(); ++i) {
                        up.push_back(path[i]);
                        w.groups.insert(joined(up));
                    }
                    w.attributes.insert(joined(path));
                    w.types[joined(path)] = type;
                }
            }
            else {
                std::shared_ptr<fl::Argument> r;
                std::string texts;
                try {
                    if(how == "read") {
                        auto const rs = fl::Read().execute({string(name)});
                        if(rs.size() == 1) r = rs[0];
                    }
                    else {
                        fl::DatasetSource source{fern::DataName(name)};
                        std::ostringstream s;
                        s << source.expression_type();
                        texts = s.str();
                        r = source.read();
                    }
                }
                catch(fern::Exception const& e) { result = described(e); }
                j.s("texts", texts);
                auto const a =
                    std::dynamic_pointer_cast<fl::AttributeArgument>(r);
                describe(j, a ? a->attribute() : nullptr);
            }
            j.s("result", result);
        }
        else if(what < 1) {
            int const f = g.chance(60) ? g.range(0, 1)
                : g.range(0, files.size() - 1);
            OpenMode m = g.chance(40) ? OpenMode::OVERWRITE :
                g.chance(50) ? OpenMode::UPDATE : OpenMode::READ;
            if(contents.count(f) && m == OpenMode::OVERWRITE &&
                    g.chance(70)) m = OpenMode::UPDATE;
            if(!contents.count(f) && g.chance(70)) m = OpenMode::OVERWRITE;
            std::string const how = g.chance(50) ? "dataset" :
                g.chance(50) ? "driver" : g.chance(50) ? "named" : "any";
            j.s("do", "open").i("file", f).s("mode", mode_name(m))
                .s("how", how);
            std::string result = "ok";
            std::shared_ptr<fl::Dataset> d;
            // What the driver is asked may not be decided while it is open.
            try {
                if(how == "dataset") {
                    d = std::make_shared<fl::FernDataset>(files[f], m);
                }
                else if(how == "driver") d = driver.open(files[f], m);
                else d = fl::open_dataset(files[f], m,
                    how == "named" ? "Fern" : "");
            }
            catch(fern::Exception const& e) {
                result = described(e);
            }
            bool const good = static_cast<bool>(d);
            j.b("opened", good).s("result", result);
            j.s("name", good ? d->name() : "");
            j.s("now", good ? mode_name(d->open_mode()) : "");
            if(good) {
                if(m == OpenMode::OVERWRITE) contents[f] = Content();
                open.push_back(Open{d, f, m});
                alive.push_back(true);
            }
        }
        else if(what < 24) {
            int const h = g.pick(live);
            j.s("do", "close").i("h", h);
            open[h].d.reset();
            alive[h] = false;
        }
        else if(what < 48) {
            if(writers.empty()) { --k; continue; }
            int const h = g.pick(writers);
            Content& c = contents[open[h].file];
            std::vector<std::string> path = feature_path(g);
            path.push_back(g.chance(85) ? attribute_name(g) : "a");
            // Existing things keep being what they are.
            std::vector<std::string> up;
            bool fine = true;
            for(size_t i = 0; i + 1 < path.size(); ++i) {
                up.push_back(path[i]);
                if(c.attributes.count(joined(up))) fine = false;
            }
            if(!fine || c.groups.count(joined(path))) continue;
            std::string type = g.pick(types());
            if(c.types.count(joined(path))) type = c.types[joined(path)];
            std::string text;
            auto const a = constant(type, some_value(g, type), text);
            j.s("do", "write").i("h", h).raw("path", str_list(path))
                .s("type", type).s("value", text);
            std::string result = "ok";
            try { open[h].d->write_attribute(*a, spelled(g, path)); }
            catch(fern::Exception const& e) { result = described(e); }
            j.s("result", result);
            up.clear();
            for(size_t i = 0; i + 1 < path.size(); ++i) {
                up.push_back(path[i]);
                c.groups.insert(joined(up));
            }
            c.attributes.insert(joined(path));
            c.types[joined(path)] = type;
        }
        else if(what < 90) {
            int const h = g.pick(live);
            auto& d = *open[h].d;
            Content const& c = contents[open[h].file];
            std::vector<std::string> path;
            if(!c.attributes.empty() && g.chance(70)) {
                auto it = c.attributes.begin();
                std::advance(it, g.range(0, c.attributes.size() - 1));
                path = parts(*it);
                if(g.chance(25)) path.pop_back();
                else if(g.chance(10)) path.push_back("x");
                else if(g.chance(5)) path.erase(path.begin());
            }
            else {
                path = feature_path(g, 0);
                if(g.chance(60)) path.push_back(attribute_name(g));
            }
            if(path.empty()) path.push_back("x");
            std::string const text = spelled(g, path);
            j.i("h", h).raw("path", str_list(path)).s("text", text);
            switch(g.range(0, 6)) {
                case 0:
                case 1: {
                    bool const read = g.chance(60);
                    j.s("do", "read").b("read", read);
                    std::shared_ptr<fl::Attribute> a;
                    std::string result = "ok";
                    try {
                        a = read ? d.read_attribute(text)
                            : d.open_attribute(text);
                    }
                    catch(fern::Exception const& e) { result = described(e); }
                    j.s("result", result);
                    describe(j, a);
                    break;
                }
                case 2: {
                    j.s("do", "type");
                    std::string result = "ok", type = "?";
                    try {
                        fern::ExpressionType const t = d.expression_type(text);
                        std::ostringstream s;
                        s << t;
                        type = s.str();
                    }
                    catch(fern::Exception const& e) { result = described(e); }
                    j.s("result", result).s("type", type);
                    break;
                }
                case 3: {
                    j.s("do", "feature").b("there", d.contains_feature(text));
                    break;
                }
                case 4: {
                    j.s("do", "attribute")
                        .b("there", d.contains_attribute(text));
                    break;
                }
                case 5: {
                    j.s("do", "counts");
                    j.i("nr", d.nr_features());
                    j.raw("names", str_list(d.feature_names()));
                    auto* f = dynamic_cast<fl::FernDataset*>(&d);
                    bool const there = d.contains_feature(text);
                    j.b("there", there);
                    j.i("features", there ? f->nr_features(text) : 0);
                    j.i("attributes", there ? f->nr_attributes(text) : 0);
                    break;
                }
                case 6: {
                    j.s("do", "missing");
                    std::string result = "ok";
                    if(!c.groups.count(joined(path))) {
                        try { d.read_feature(text); }
                        catch(fern::Exception const& e) {
                            result = described(e);
                        }
                    }
                    j.s("result", result);
                    break;
                }
            }
        }
        else {
            int const f = g.range(0, files.size() - 1);
            OpenMode const m = g.chance(34) ? OpenMode::OVERWRITE :
                g.chance(50) ? OpenMode::UPDATE : OpenMode::READ;
            if(m == OpenMode::OVERWRITE && handles(f) > 0) continue;
            std::string const how = g.chance(40) ? "driver" :
                g.chance(50) ? "named" : "any";
            j.s("do", "can").i("file", f).s("mode", mode_name(m))
                .s("how", how);
            j.b("can", how == "driver" ? driver.can_open(files[f], m) :
                fl::dataset_exists(files[f], m, how == "named" ? "Fern" : ""));
        }
        // What is left open, in the files and in the file system.
        j.i("open", H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL));
        std::vector<bool> there;
        for(auto const& f: files) there.push_back(fs::is_regular_file(f));
        j.bs("files", there);
        steps.push_back(j.text + "}");
    }
    open.clear();
    client.reset();
    head.raw("steps", list(steps));
    head.i("open", H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL));
    fs::remove_all(dir);
    end(head);
}


// A driver that knows what it has been asked.
struct Asked: public fl::Driver
{
    std::vector<std::string>& log;
    std::string key;
    bool can;

    struct Data: public fl::Dataset
    {
        std::string by;
        Data(std::string const& name, OpenMode mode, std::string const& by)
            : Dataset(name, mode), by(by) {}
        ~Data()=default;
        size_t nr_features() const { return 0; }
        std::vector<std::string> feature_names() const { return {}; }
        bool contains_feature(fern::Path const&) const { return false; }
        bool contains_attribute(fern::Path const&) const { return false; }
        fern::ExpressionType expression_type(fern::Path const&) const
            { return fern::ExpressionType(); }
        std::shared_ptr<fl::Feature> open_feature(fern::Path const&) const
            { return nullptr; }
        std::shared_ptr<fl::Attribute> open_attribute(fern::Path const&) const
            { return nullptr; }
        std::shared_ptr<fl::Feature> read_feature(fern::Path const&) const
            { return nullptr; }
        std::shared_ptr<fl::Attribute> read_attribute(fern::Path const&) const
            { return nullptr; }
        void write_attribute(fl::Attribute const&, fern::Path const&) {}
    };

    Asked(std::vector<std::string>& log, std::string const& name, bool can)
        : Driver(name), log(log), key(name), can(can) {}
    bool can_open(std::string const& name, OpenMode mode)
    {
        log.push_back("can " + key + " " + name + " " + mode_name(mode));
        return can;
    }
    std::shared_ptr<fl::Dataset> open(std::string const& name, OpenMode mode)
    {
        log.push_back("open " + key + " " + name + " " + mode_name(mode));
        return std::make_shared<Data>(name, mode, key);
    }
};

// Which drivers are asked for a dataset.
void asked(Rng& g)
{
    static std::vector<std::string> const all{"AAA", "Aaa", "Fern", "Fernando",
        "GTiff", "HDF5", "a", "netCDF"};
    std::vector<std::string> log, names;
    std::vector<bool> can;
    int const chance = g.pick(std::vector<int>{0, 20, 50, 80});
    for(auto const& n: all) {
        if(!g.chance(60)) continue;
        names.push_back(n);
        can.push_back(g.chance(chance));
    }
    if(names.empty()) { names.push_back("Fern"); can.push_back(true); }
    std::string format;
    if(g.chance(50)) format = g.chance(80) ? g.pick(names) : g.pick(all);
    OpenMode const m = g.chance(34) ? OpenMode::OVERWRITE :
        g.chance(50) ? OpenMode::UPDATE : OpenMode::READ;
    bool const open = g.chance(60);
    std::string const name = g.pick(std::vector<std::string>{"a.h5",
        "/tmp/a b", "x"});
    Json j;
    j.s("op", "asked").raw("names", str_list(names)).bs("can", can)
        .s("format", format).s("mode", mode_name(m)).b("open", open)
        .s("name", name);
    begin(j);
    Others others;
    for(size_t k = 0; k < names.size(); ++k) {
        fl::drivers[names[k]] = std::make_shared<Asked>(log, names[k], can[k]);
    }
    std::string result = "ok", by;
    bool exists = false;
    try {
        if(open) {
            auto const d = fl::open_dataset(name, m, format);
            by = std::dynamic_pointer_cast<Asked::Data>(d)->by;
            exists = d->name() == name && d->open_mode() == m;
        }
        else exists = fl::dataset_exists(name, m, format);
    }
    catch(fern::Exception const& e) { result = described(e); }
    fl::drivers.clear();
    j.b("exists", exists).s("by", by).s("result", result)
        .raw("log", str_list(log));
    end(j);
}

// What can be told about files from their names.
void paths(Rng& g)
{
    std::string const dir = "p" + std::to_string(g.index);
    fs::remove_all(dir);
    fs::create_directory(dir);
    std::string const base = g.chance(50) ? scratch + "/" + dir : dir;
    std::string const text = std::string(g.range(0, 9), 'x') +
        (g.chance(50) ? "\n" : "") + (g.chance(30) ? "y\n" : "");
    static std::vector<std::string> const kinds{"absent", "file", "directory",
        "link", "chain", "dirlink", "dangling", "beneath", "nowhere"};
    std::string const kind = g.pick(kinds);
    bool const writable = g.chance(50);
    std::string path = base + "/" + (g.chance(50) ? "f" : "f.txt");
    Json j;
    j.s("op", "paths").s("kind", kind).b("writable", writable)
        .s("text", text);
    begin(j);
    std::string target = path;
    if(kind != "file" && kind != "directory") target = base + "/t";
    if(kind == "file" || kind == "link" || kind == "chain" ||
            kind == "beneath") {
        fl::write_file(text, target);
    }
    if(kind == "directory" || kind == "dirlink") fs::create_directory(target);
    if(kind == "link" || kind == "dirlink" || kind == "dangling") {
        fs::create_symlink("t", path);
    }
    if(kind == "chain") {
        fs::create_symlink("t", base + "/u");
        fs::create_symlink("u", path);
    }
    if(kind == "beneath") path = base + "/t/f";
    if(kind == "nowhere") path = base + "/no/f";
    if(fs::exists(target)) {
        ::chmod(target.c_str(), fs::is_directory(target) ?
            (writable ? 0755 : 0555) : writable ? 0644 : 0444);
    }
    if(kind == "directory" && g.chance(20)) path += "/";
    j.b("exists", fl::file_exists(path));
    j.b("file", fl::file_is_writable(path));
    j.b("directory", fl::directory_is_writable(path));
    std::string read = "?";
    if(kind == "file" || kind == "link" || kind == "chain") {
        std::ifstream s(path);
        std::ostringstream t;
        t << s.rdbuf();
        read = t.str();
    }
    j.s("read", read);
    if(fs::is_directory(target)) ::chmod(target.c_str(), 0755);
    // The working directory.
    ::chmod(".", writable ? 0755 : 0555);
    j.b("here", fl::directory_is_writable(fern::Path()));
    ::chmod(".", 0755);
    fs::remove_all(dir);
    end(j);
}

// The drivers are there for as long as there are clients.
void clients(Rng& g)
{
    if(g.chance(70)) { paths(g); return; }
    gdal.reset();
    std::string const kind = g.chance(85) ? "fern" :
        g.chance(50) ? "gdal" : "io";
    std::vector<std::string> steps;
    std::vector<std::unique_ptr<Fern>> ferns;
    std::vector<std::unique_ptr<Gdal>> gdals;
    std::vector<std::unique_ptr<Io>> ios;
    Json j;
    j.s("op", "clients").s("kind", kind);
    begin(j);
    std::set<std::string> first;
    int n = 0;
    int const nr = kind == "fern" ? g.range(1, 10) : g.range(2, 6);
    for(int k = 0; k < nr || n > 0; ++k) {
        bool const more = k < nr && (n == 0 || g.chance(50));
        if(more) {
            if(kind == "fern") ferns.emplace_back(new Fern);
            else if(kind == "gdal") gdals.emplace_back(new Gdal);
            else ios.emplace_back(new Io);
            ++n;
        }
        else {
            size_t const which = g.range(0, n - 1);
            if(kind == "fern") ferns.erase(ferns.begin() + which);
            else if(kind == "gdal") gdals.erase(gdals.begin() + which);
            else ios.erase(ios.begin() + which);
            --n;
        }
        std::set<std::string> names;
        bool named = true;
        for(auto const& d: fl::drivers) {
            names.insert(d.first);
            named = named && d.second && d.second->name() == d.first;
        }
        if(first.empty()) first = names;
        Json s;
        s.b("more", more).i("nr", names.size()).b("named", named)
            .b("same", names == first).b("fern", names.count("Fern"))
            .b("tiff", names.count("GTiff"))
            .b("ascii", names.count("AAIGrid"))
            .i("others", names.size() - names.count("Fern"));
        steps.push_back(s.text + "}");
    }
    j.raw("steps", list(steps));
    end(j);
    // Another kind of client may have used HDF5.
    hdf5.reset();
    hdf5.reset(new Hdf5);
}

// All drivers, asked for something they cannot know.
void everyone(Rng& g)
{
    // This takes long.
    if(g.chance(96)) { asked(g); return; }
    gdal.reset();
    Io io;
    std::string const name = g.pick(std::vector<std::string>{
        "../does_not_exist.h5", "does_not_exist", "no/where.tif"});
    Json j;
    j.s("op", "everyone").s("name", name);
    begin(j);
    std::vector<std::string> wrong;
    for(OpenMode m: {OpenMode::READ, OpenMode::UPDATE}) {
        for(auto const& d: fl::drivers) {
            std::string result = "ok";
            if(d.second->can_open(name, m)) result = "can";
            else try { d.second->open(name, m); }
            catch(fern::Exception const& e) { result = described(e); }
            if(result != "IOError I/O error handling " + name +
                    ": Does not exist") {
                wrong.push_back(d.first + ": " + result);
            }
        }
        std::string result = "ok";
        try { fl::open_dataset(name, m); }
        catch(fern::Exception const& e) { result = described(e); }
        j.s(m == OpenMode::READ ? "read" : "update", result);
        j.b(m == OpenMode::READ ? "exists" : "exists_too",
            fl::dataset_exists(name, m));
    }
    j.raw("wrong", str_list(wrong));
    end(j);
}

template<typename T>
struct Raster
{
    int rows, cols;
    int64_t west, north, cell;      // In quarters.
    std::vector<T> values;
    std::vector<bool> mask;

    Raster(Rng& g): rows(g.range(1, 5)), cols(g.range(1, 5)),
        west(g.range(-40, 40)), north(g.range(-40, 40)), cell(g.range(1, 12))
    {
        fill(g);
    }
    void fill(Rng& g)
    {
        values.clear();
        mask.clear();
        int const masked = g.pick(std::vector<int>{0, 0, 30, 100});
        for(int i = 0; i < rows * cols; ++i) {
            values.push_back(std::is_floating_point<T>::value
                ? static_cast<T>(g.range(-1000, 1000) / 8.0)
                : g.chance(20) ? std::numeric_limits<T>::max()
                : g.chance(20) ? std::numeric_limits<T>::min()
                : static_cast<T>(g.next()));
            mask.push_back(g.chance(masked));
        }
    }
    std::shared_ptr<fl::FieldAttribute<T>> attribute() const
    {
        fl::d2::Point south_west, north_east;
        fern::set<0>(south_west, west / 4.0);
        fern::set<1>(north_east, north / 4.0);
        fern::set<0>(north_east, (west + cols * cell) / 4.0);
        fern::set<1>(south_west, (north - rows * cell) / 4.0);
        auto array = std::make_shared<fl::FieldValue<T>>(
            fern::extents[rows][cols]);
        for(int i = 0; i < rows * cols; ++i) {
            array->data()[i] = values[i];
            array->mask().data()[i] = mask[i];
        }
        auto a = std::make_shared<fl::FieldAttribute<T>>();
        a->add(fl::d2::Box(south_west, north_east), array);
        return a;
    }
    std::string json() const
    {
        std::vector<std::string> cells;
        for(int i = 0; i < rows * cols; ++i) {
            cells.push_back(mask[i] ? "-" : bits(values[i]));
        }
        Json j;
        j.i("rows", rows).i("cols", cols).i("west", west).i("north", north)
            .i("cell", cell).raw("cells", str_list(cells));
        return j.text + "}";
    }
};

int64_t quarters(double x)
{
    double const y = x * 4;
    return y == static_cast<double>(static_cast<int64_t>(y))
        ? static_cast<int64_t>(y) : 999999;
}

// What has been read, as it has been written.
template<typename T>
std::string seen(std::shared_ptr<fl::Attribute> const& attribute)
{
    auto const a = std::dynamic_pointer_cast<fl::FieldAttribute<T>>(attribute);
    if(!a || a->size() != 1 || a->values().size() != 1) return "{\"rows\":-1}";
    fl::d2::Box const& box = a->domain().cbegin()->second;
    fl::FieldValue<T> const& v = *a->values().cbegin()->second;
    Json j;
    int const rows = v.shape()[0], cols = v.shape()[1];
    int64_t const west = quarters(fern::get<0>(box.min_corner())),
        north = quarters(fern::get<1>(box.max_corner())),
        east = quarters(fern::get<0>(box.max_corner())),
        south = quarters(fern::get<1>(box.min_corner()));
    j.i("rows", rows).i("cols", cols).i("west", west).i("north", north);
    j.i("cell", (east - west) % cols == 0 && (north - south) % rows == 0 &&
        (east - west) / cols == (north - south) / rows
        ? (east - west) / cols : -1);
    std::vector<std::string> cells;
    for(int i = 0; i < rows * cols; ++i) {
        cells.push_back(v.mask().data()[i] ? "-" : bits(v.data()[i]));
    }
    j.raw("cells", str_list(cells));
    return j.text + "}";
}

// Where GDAL itself finds the cells.
std::string place(std::string const& name)
{
    GDALDatasetH const d = GDALOpen(name.c_str(), GA_ReadOnly);
    double t[6] = {0, 0, 0, 0, 0, 0};
    bool const good = d && GDALGetGeoTransform(d, t) == CE_None;
    if(d) GDALClose(d);
    Json j;
    j.b("good", good).i("west", quarters(t[0])).i("width", quarters(t[1]))
        .i("north", quarters(t[3])).i("height", quarters(t[5]));
    return j.text + "}";
}

template<typename T>
void raster(Rng& g, char const* type)
{
    std::string const dir = "r" + std::to_string(g.index);
    fs::remove_all(dir);
    fs::create_directory(dir);
    if(!gdal) gdal.reset(new Gdal);
    std::string const stem = g.chance(50) ? "heights" : "a.b";
    std::string const name = dir + "/" + stem + ".tif";
    std::vector<std::string> steps;
    Json head;
    bool const junk = g.chance(20);
    head.s("op", "raster").s("type", type).s("stem", stem).s("name", name)
        .b("junk", junk);
    begin(head);
    bool there = false;
    if(junk) write_text(name, "planets");
    Raster<T> now(g);
    std::string const feature = "/" + stem, attribute = feature + feature;
    int const n = g.range(1, 8);
    for(int k = 0; k < n; ++k) {
        Json j;
        OpenMode const m = g.chance(30) ? OpenMode::OVERWRITE :
            g.chance(50) ? OpenMode::UPDATE : OpenMode::READ;
        bool const by = g.chance(50);
        j.s("mode", mode_name(m));
        fl::GDALDriver driver("GTiff");
        j.b("can", driver.can_open(name, m));
        std::shared_ptr<fl::Dataset> d;
        std::string result = "ok";
        try {
            if(by) d = driver.open(name, m);
            else d = std::make_shared<fl::GDALDataset>("GTiff", name, m);
        }
        catch(fern::Exception const& e) { result = described(e); }
        j.s("result", result);
        bool const good = static_cast<bool>(d);
        if(good) {
            j.raw("names", str_list(d->feature_names()));
            j.i("nr", d->nr_features());
            j.bs("has", std::vector<bool>{d->contains_feature(feature),
                d->contains_attribute(attribute), d->contains_feature("/x"),
                d->contains_attribute(feature), d->contains_attribute("/x/x"),
                d->contains_feature(attribute)});
            if(m == OpenMode::OVERWRITE) now = Raster<T>(g);
            else if(m == OpenMode::UPDATE) now.fill(g);
        }
        bool const write = good && m != OpenMode::READ;
        j.b("write", write);
        j.raw("now", now.json());
        if(write) {
            std::string outcome = "ok";
            try { d->write_attribute(*now.attribute(), attribute); }
            catch(fern::Exception const& e) { outcome = described(e); }
            j.s("outcome", outcome);
            there = true;
        }
        std::string read = "{\"rows\":0}", whole = read, text = "?";
        std::vector<std::string> errors;
        if(good) {
            read = seen<T>(d->read_attribute(attribute));
            auto const f = d->read_feature(feature);
            whole = f->nr_attributes() == 1 && f->contains_attribute(stem)
                ? seen<T>(f->attribute(stem)) : "{\"rows\":-2}";
            auto const o = std::dynamic_pointer_cast<fl::FieldAttribute<T>>(
                d->open_attribute(attribute));
            j.b("opened", o && o->size() == 0);
            std::ostringstream s;
            s << d->expression_type(attribute);
            text = s.str();
            try { d->read_attribute("x"); }
            catch(fern::Exception const& e) { errors.push_back(described(e)); }
            try { d->read_feature("x"); }
            catch(fern::Exception const& e) { errors.push_back(described(e)); }
            try { d->open_attribute("/x/x"); }
            catch(fern::Exception const& e) { errors.push_back(described(e)); }
        }
        j.raw("read", read).raw("whole", whole).s("text", text);
        j.raw("errors", str_list(errors));
        d.reset();
        j.raw("place", there ? place(name) : "{\"good\":false}");
        int nr_open = 0;
        ::GDALDataset** all = nullptr;
        all = ::GDALDataset::GetOpenDatasets(&nr_open);
        static_cast<void>(all);
        j.i("open", nr_open);
        steps.push_back(j.text + "}");
    }
    head.raw("steps", list(steps));
    fs::remove_all(dir);
    end(head);
}

void rasters(Rng& g)
{
    switch(g.range(0, 6)) {
        case 0: raster<uint8_t>(g, "Uint8"); break;
        case 1: raster<uint16_t>(g, "Uint16"); break;
        case 2: raster<int16_t>(g, "Int16"); break;
        case 3: raster<uint32_t>(g, "Uint32"); break;
        case 4: raster<int32_t>(g, "Int32"); break;
        case 5: raster<float>(g, "Float32"); break;
        default: raster<double>(g, "Float64"); break;
    }
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {store, rasters, store, asked, paths, store, rasters,
        clients, everyone};
    if(argc != 5) return ev::main(argc, argv);
    // The scratch directory is removed by the parent, also after a crash.
    std::string const out = fs::absolute(argv[4]).string();
    char dir[] = "/tmp/fern-stores-XXXXXX";
    if(!mkdtemp(dir)) return 73;
    scratch = fs::canonical(dir).string();
    pid_t const pid = fork();
    if(pid == 0) {
        if(chdir(scratch.c_str()) != 0) _exit(74);
        hdf5.reset(new Hdf5);
        argv[4] = const_cast<char*>(out.c_str());
        int const status = ev::main(argc, argv);
        std::fflush(nullptr);
        _exit(status);
    }
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    fs::remove_all(scratch);
    return WIFEXITED(status) ? WEXITSTATUS(status) : 70;
}
