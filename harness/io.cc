// Files of rasters (GDAL) and of variables (NetCDF), read by the code.
// Everything is written in a scratch directory, which is removed at the end.
#include <cassert>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include <dirent.h>
#include <sys/wait.h>
#include <gdal_priv.h>
#include <netcdf.h>
#include "fern/core/data_name.h"
#include "fern/core/io_error.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/algorithm/policy/dont_mark_no_data.h"
#include "fern/algorithm/policy/mark_no_data_by_value.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/io/core/file.h"
#include "fern/io/gdal/dataset.h"
#include "fern/io/gdal/gdal_client.h"
#include "fern/io/gdal/read.h"
#include "fern/io/netcdf/core/attribute.h"
#include "fern/io/netcdf/core/dataset.h"
#include "fern/io/netcdf/core/variable.h"
#include "fern/io/netcdf/coards/dataset.h"
#include "fern/io/netcdf/coards/read.h"
#include "events.h"

namespace {

using namespace ev;
using namespace fern;
namespace fa = fern::algorithm;
namespace fi = fern::io;
namespace fig = fern::io::gdal;
namespace fin = fern::io::netcdf;
namespace fs = std::filesystem;

std::string scratch;
std::unique_ptr<fig::GDALClient> client;

// The files of the scratch directory that are open.
int nr_open()
{
    int n = 0;
    for(auto const& e: fs::directory_iterator("/proc/self/fd")) {
        std::error_code error;
        std::string const t = fs::read_symlink(e.path(), error).string();
        if(!error && t.compare(0, scratch.size(), scratch) == 0) ++n;
    }
    return n;
}

int nr_datasets()
{
    GDALDataset** datasets;
    int n;
    GDALGetOpenDatasets(reinterpret_cast<GDALDatasetH**>(&datasets), &n);
    return n;
}

void clean()
{
    for(auto const& e: fs::directory_iterator(scratch)) {
        fs::remove_all(e.path());
    }
}

std::string a_name(Rng& rng, std::string const& extension)
{
    std::string name = rng.pick<std::string>({"a", "b_1", "a-b", "x.y", "A b"});
    if(rng.chance(30)) {
        std::string const dir = rng.pick<std::string>({"d", "d/e", "d e"});
        fs::create_directories(dir);
        name = dir + "/" + name;
    }
    if(rng.chance(20)) name = scratch + "/" + name;
    return name + extension;
}

// Paths are recorded without the scratch directory's random name.
std::string plain(std::string text)
{
    size_t const p = text.find(scratch);
    return p == std::string::npos ? text
        : text.replace(p, scratch.size(), "/scratch");
}

template<typename T>
std::string str(T value)
{
    if(value != value) return "nan";
    if(value == 0) return "0";
    char buffer[64];
    std::snprintf(buffer, sizeof buffer, "%.17g", static_cast<double>(value));
    return buffer;
}

// What is thrown.
template<typename F>
std::string error_of(F const& f)
{
    try { f(); }
    catch(IOError const& e) { return "IOError: " + plain(e.message()); }
    catch(Exception const& e) { return "Exception: " + plain(e.message()); }
    catch(std::exception const& e) { return "std::exception"; }
    return "";
}

// -----------------------------------------------------------------------------
// Rasters.

template<typename T>
std::vector<T> interesting()
{
    using L = std::numeric_limits<T>;
    std::vector<T> r{0, 1, 2, 3, 7, 100, L::max(), L::lowest(),
        static_cast<T>(L::max() - 1)};
    if(L::is_signed) {
        r.push_back(static_cast<T>(-1));
        r.push_back(static_cast<T>(-2));
        r.push_back(static_cast<T>(-100));
    }
    if(L::max() > 255) r.push_back(static_cast<T>(9999));
    if(L::is_signed && L::max() > 255) r.push_back(static_cast<T>(-9999));
    if(!L::is_integer) {
        for(double v: {0.5, -0.0, 0.1, 1e-30, 1e30}) {
            r.push_back(static_cast<T>(v));
        }
        r.push_back(L::quiet_NaN());
        r.push_back(L::infinity());
        r.push_back(-L::infinity());
    }
    return r;
}

template<typename T>
char const* type_name()
{
    return std::is_same<T, uint8_t>::value ? "uint8"
        : std::is_same<T, uint16_t>::value ? "uint16"
        : std::is_same<T, int16_t>::value ? "int16"
        : std::is_same<T, uint32_t>::value ? "uint32"
        : std::is_same<T, int32_t>::value ? "int32"
        : std::is_same<T, float>::value ? "float32" : "float64";
}

char const* gdal_name(GDALDataType type)
{
    return type == GDT_Byte ? "uint8" : type == GDT_UInt16 ? "uint16"
        : type == GDT_Int16 ? "int16" : type == GDT_UInt32 ? "uint32"
        : type == GDT_Int32 ? "int32" : type == GDT_Float32 ? "float32"
        : type == GDT_Float64 ? "float64" : "other";
}

template<typename T>
GDALDataType gdal_type()
{
    for(GDALDataType t: {GDT_Byte, GDT_UInt16, GDT_Int16, GDT_UInt32,
            GDT_Int32, GDT_Float32}) {
        if(std::string(gdal_name(t)) == type_name<T>()) return t;
    }
    return GDT_Float64;
}

template<typename T, typename Policy>
std::string read_into(std::string const& name, MaskedRaster<T, 2>& raster)
{
    Policy policy(raster.mask());
    DataName const data_name(name);
    return error_of([&]() { fig::read(policy, data_name, raster); });
}

template<typename T>
void raster(Rng& rng)
{
    clean();
    std::string format = rng.pick<std::string>(
        {"GTiff", "GTiff", "GTiff", "ENVI", "HFA", "AAIGrid"});
    if(format == "AAIGrid" && !std::is_same<T, int32_t>::value) format = "HFA";
    std::string const file = a_name(rng, format == "GTiff" ? ".tif"
        : format == "ENVI" ? ".bin" : format == "HFA" ? ".img" : ".asc");
    int const rows = static_cast<int>(rng.range(1, rng.chance(20) ? 20 : 6));
    int const cols = static_cast<int>(rng.range(1, rng.chance(20) ? 20 : 6));
    int const bands = format == "AAIGrid" ? 1
        : static_cast<int>(rng.range(1, 3));
    bool const text = format == "AAIGrid";
    GDALDataType const type = text ? GDT_Int32 : gdal_type<T>();
    std::vector<T> values = interesting<T>();
    // Few different values, so no-data values are met.
    std::vector<T> chosen;
    for(int k = 0; k < 4; ++k) chosen.push_back(rng.pick(values));
    std::vector<T> cells, other;
    for(int k = 0; k < rows * cols; ++k) {
        cells.push_back(rng.pick(chosen));
        other.push_back(rng.pick(values));
    }
    bool const has = rng.chance(75);
    double no_data = static_cast<double>(rng.pick(chosen));
    if(rng.chance(25)) {
        no_data = rng.pick<double>({-9999, -1, 256, 255, 65535, 65536, 0.5, 1.5,
            4294967295.0, 4294967296.0, -3.4028234663852886e+38, 1e300,
            std::numeric_limits<double>::quiet_NaN()});
        if(!std::numeric_limits<T>::is_integer && no_data == 1e300) {
            no_data = 9999;
        }
    }
    if(text && !(std::abs(no_data) < 2e9)) no_data = -9999;
    if(text) {
        std::ofstream s(file);
        s << "ncols " << cols << "\nnrows " << rows
            << "\nxllcorner 0\nyllcorner 0\ncellsize 1\n";
        if(has) s << "NODATA_value " << static_cast<long>(no_data) << "\n";
        for(int k = 0; k < rows * cols; ++k) {
            s << static_cast<long>(cells[k]) << (k % cols == cols - 1 ? "\n" : " ");
        }
    }
    else {
        auto driver = GetGDALDriverManager()->GetDriverByName(format.c_str());
        auto d = driver->Create(file.c_str(), cols, rows, bands, type, nullptr);
        assert(d);
        double t[6] = {3, 2, 0, 9, 0, -2};
        d->SetGeoTransform(t);
        if(has) d->GetRasterBand(1)->SetNoDataValue(no_data);
        for(int b = bands; b > 0; --b) {
            auto const& v = b == 1 ? cells : other;
            auto const status = d->GetRasterBand(b)->RasterIO(GF_Write, 0, 0,
                cols, rows, const_cast<T*>(v.data()), cols, rows, type, 0, 0);
            assert(status == CE_None); (void)status;
        }
        GDALClose(d);
    }

    // What the file says.
    int there = 0;
    double stated = 0;
    {
        auto d = static_cast<GDALDataset*>(GDALOpen(file.c_str(), GA_ReadOnly));
        assert(d);
        stated = d->GetRasterBand(1)->GetNoDataValue(&there);
        std::vector<T> again(cells.size());
        auto const status = d->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, cols,
            rows, again.data(), cols, rows, type, 0, 0);
        assert(status == CE_None); (void)status;
        cells = again;
        assert(d->GetRasterBand(1)->GetRasterDataType() == type);
        GDALClose(d);
    }

    bool const mark = rng.chance(75);
    std::vector<bool> prior;
    int const percent = rng.pick<int>({0, 0, 30});
    MaskedRaster<T, 2> destination(extents[static_cast<size_t>(rows)]
        [static_cast<size_t>(cols)],
        typename MaskedRaster<T, 2>::Transformation{{1.5, 0.5, 7.0, 0.25}});
    for(int k = 0; k < rows * cols; ++k) {
        prior.push_back(rng.chance(percent));
        destination.mask().data()[k] = prior.back();
        destination.data()[k] = rng.pick(values);
    }
    std::vector<std::string> before, after;
    for(T v: cells) before.push_back(str(v));
    std::string nd = str(std::numeric_limits<T>::is_integer
        ? stated : static_cast<double>(static_cast<T>(stated)));
    Json j;
    j.s("op", "raster").s("format", format).s("type", type_name<T>())
        .i("rows", rows).i("cols", cols).raw("cells", str_list(before))
        .b("has", there != 0).s("nodata", there ? nd : "").b("mark", mark)
        .bs("prior", prior).s("file", plain(file));
    ev::begin(j);
    std::string const name = file + ":" + rng.pick<std::string>(
        {"/a", "/soil", "/a/b", "/"});
    int const datasets = nr_datasets();
    auto const error = mark
        ? read_into<T, fa::MarkNoDataByValue<Mask<2>>>(name, destination)
        : read_into<T, fa::DontMarkNoData>(name, destination);
    std::string found;
    auto const error2 = error_of([&]() {
        found = gdal_name(fig::gdal_value_type(DataName(name))); });
    bool const left = nr_datasets() == datasets;
    std::vector<bool> mask;
    for(int k = 0; k < rows * cols; ++k) {
        after.push_back(str(destination.data()[k]));
        mask.push_back(destination.mask().data()[k]);
    }
    auto const& t = destination.transformation();
    j.s("error", error).s("error2", error2).s("found", found)
        .raw("values", str_list(after)).bs("mask", mask)
        .b("kept", t[0] == 1.5 && t[1] == 0.5 && t[2] == 7.0 && t[3] == 0.25)
        .b("closed", left).i("open", nr_open());
    ev::end(j);
}

void check(int status)
{
    if(status != NC_NOERR) {
        std::fprintf(stderr, "netcdf: %s\n", nc_strerror(status));
        std::abort();
    }
}

// A raster which is not what the destination is for: of other values, without
// bands, or with part of the values missing.

char const* const kinds_of_values[] = {"uint8", "uint16", "int16", "uint32",
    "int32", "float32", "float64", "complex"};

template<typename T>
void other_raster(Rng& rng)
{
    clean();
    std::string const what = rng.pick<std::string>(
        {"values", "values", "bands", "cut"});
    std::string const kind = what == "values"
        ? rng.pick<std::string>({kinds_of_values, kinds_of_values + 8})
        : type_name<T>();
    int rows = static_cast<int>(rng.range(1, 4));
    int cols = static_cast<int>(rng.range(1, 4));
    std::string const file = a_name(rng, what == "bands" ? ".nc" : ".tif");
    if(what == "bands") {
        // Of two variables none is the raster of the dataset.
        int id, x, y, a, b;
        check(nc_create(file.c_str(), NC_CLOBBER, &id));
        check(nc_def_dim(id, "x", 2, &x));
        check(nc_def_dim(id, "y", 2, &y));
        int const dims[] = {x, y};
        check(nc_def_var(id, "a", NC_INT, 2, dims, &a));
        check(nc_def_var(id, "b", NC_INT, 2, dims, &b));
        check(nc_close(id));
        auto d = static_cast<GDALDataset*>(GDALOpen(file.c_str(), GA_ReadOnly));
        assert(d && d->GetRasterCount() == 0);
        rows = d->GetRasterYSize();
        cols = d->GetRasterXSize();
        GDALClose(d);
    }
    else {
        GDALDataType type = GDT_CFloat32;
        for(GDALDataType t: {GDT_Byte, GDT_UInt16, GDT_Int16, GDT_UInt32,
                GDT_Int32, GDT_Float32, GDT_Float64}) {
            if(gdal_name(t) == kind) type = t;
        }
        auto driver = GetGDALDriverManager()->GetDriverByName("GTiff");
        auto d = driver->Create(file.c_str(), cols, rows, 1, type, nullptr);
        assert(d);
        std::vector<double> ones(static_cast<size_t>(rows * cols), 1.0);
        auto const status = d->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, cols,
            rows, ones.data(), cols, rows, GDT_Float64, 0, 0);
        assert(status == CE_None); (void)status;
        GDALClose(d);
        if(what == "cut") {
            // The values are the last of the file.
            fs::resize_file(file, fs::file_size(file) - 1);
        }
    }
    Json j;
    j.s("op", "other").s("what", what).s("kind", kind).s("type", type_name<T>())
        .s("file", plain(file));
    ev::begin(j);
    MaskedRaster<T, 2> destination(extents[static_cast<size_t>(rows)]
        [static_cast<size_t>(cols)],
        typename MaskedRaster<T, 2>::Transformation{{1.5, 0.5, 7.0, 0.25}});
    for(int k = 0; k < rows * cols; ++k) destination.data()[k] = T(3);
    int const datasets = nr_datasets();
    auto const error = read_into<T, fa::MarkNoDataByValue<Mask<2>>>(
        file + ":/a", destination);
    bool values_kept = true, mask_kept = true;
    for(int k = 0; k < rows * cols; ++k) {
        if(destination.data()[k] != T(3)) values_kept = false;
        if(destination.mask().data()[k]) mask_kept = false;
    }
    std::string found, type_error;
    if(what != "cut") {
        type_error = error_of([&]() {
            found = gdal_name(fig::gdal_value_type(DataName(file + ":/a"))); });
    }
    std::string const size_error = error_of([&]() {
        auto h = fig::open_dataset(file, GA_ReadOnly); });
    j.s("error", error).s("typeerror", type_error).s("found", found)
        .b("opened", size_error.empty()).b("valueskept", values_kept)
        .b("maskkept", mask_kept).b("closed", nr_datasets() == datasets)
        .i("open", nr_open());
    ev::end(j);
}

template<typename T>
void any_raster(Rng& rng)
{
    if(rng.chance(20)) other_raster<T>(rng); else raster<T>(rng);
}

void rasters(Rng& rng)
{
    switch(rng.range(0, 7)) {
        case 0: any_raster<uint8_t>(rng); break;
        case 1: any_raster<uint16_t>(rng); break;
        case 2: any_raster<int16_t>(rng); break;
        case 3: any_raster<uint32_t>(rng); break;
        case 4: case 5: any_raster<int32_t>(rng); break;
        case 6: any_raster<float>(rng); break;
        default: any_raster<double>(rng);
    }
}

// -----------------------------------------------------------------------------
// What cannot be read.

void unreadable(Rng& rng)
{
    clean();
    std::string const api = rng.pick<std::string>({"raster", "type", "open",
        "update", "coards", "netcdf"});
    std::string const file = a_name(rng, api == "coards" || api == "netcdf"
        ? ".nc" : ".tif");
    std::string const what = rng.pick<std::string>({"missing", "dangling",
        "empty", "garbage", "short", "directory"});
    if(what == "dangling") fs::create_symlink("nowhere", file);
    else if(what == "directory") fs::create_directories(file);
    else if(what != "missing") {
        std::ofstream s(file);
        if(what == "garbage") {
            int const n = static_cast<int>(rng.range(1, 2000));
            for(int k = 0; k < n; ++k) {
                s << static_cast<char>(rng.range('a', 'z'));
            }
        }
        if(what == "short") {
            s << rng.pick<std::string>({"I", "II", "CD", "CDF\1", "\x89HDF"});
        }
    }
    Json j;
    j.s("op", "unreadable").s("api", api).s("what", what).s("file", plain(file));
    ev::begin(j);
    int const datasets = nr_datasets();
    bool const exists = fi::file_exists(file);
    DataName const name(file + ":/a");
    double value = 17.5;
    MaskedRaster<double, 2> destination(extents[2][2],
        MaskedRaster<double, 2>::Transformation{{0, 1, 0, 1}});
    destination.data()[0] = 3.5;
    fa::MarkNoDataByValue<Mask<2>> policy(destination.mask());
    fa::DontMarkNoData none;
    std::string const error = error_of([&]() {
        if(api == "raster") fig::read(policy, name, destination);
        else if(api == "type") fig::gdal_value_type(name);
        else if(api == "open") fig::open_dataset(file, GA_ReadOnly);
        else if(api == "update") fig::open_dataset(name, GA_Update);
        else if(api == "coards") fin::read_coards(none, name, value);
        else fin::open_dataset(file);
    });
    j.b("exists", exists).s("error", error)
        .b("kept", value == 17.5 && destination.data()[0] == 3.5
            && !destination.mask().data()[0])
        .b("closed", nr_datasets() == datasets).i("open", nr_open());
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Variables.

struct Variable
{
    std::string name;
    nc_type type;
    int dimensions;
    double value;
};

// A type of the file's own.
nc_type const user_type = -1;

char const* nc_name(nc_type t)
{
    if(t == user_type) return "own";
    switch(t) {
        case NC_CHAR: return "char";
        case NC_UBYTE: return "uint8";
        case NC_BYTE: return "int8";
        case NC_USHORT: return "uint16";
        case NC_SHORT: return "int16";
        case NC_UINT: return "uint32";
        case NC_INT: return "int32";
        case NC_UINT64: return "uint64";
        case NC_INT64: return "int64";
        case NC_FLOAT: return "float32";
        case NC_DOUBLE: return "float64";
        default: return "string";
    }
}

char const* vt_name(ValueType t)
{
    switch(t) {
        case VT_BOOL: return "bool";
        case VT_CHAR: return "char";
        case VT_UINT8: return "uint8";
        case VT_INT8: return "int8";
        case VT_UINT16: return "uint16";
        case VT_INT16: return "int16";
        case VT_UINT32: return "uint32";
        case VT_INT32: return "int32";
        case VT_UINT64: return "uint64";
        case VT_INT64: return "int64";
        case VT_FLOAT32: return "float32";
        case VT_FLOAT64: return "float64";
        case VT_STRING: return "string";
        default: return "?";
    }
}

void variables(Rng& rng)
{
    clean();
    std::string const file = a_name(rng, rng.pick<std::string>({".nc", ""}));
    bool const v4 = rng.chance(30);
    int const nr_dimensions = static_cast<int>(rng.range(0, 3));
    std::vector<std::string> const names{"age", "a", "b", "Age", "age_2", "lat"};
    std::vector<Variable> vs;
    std::vector<nc_type> types{NC_CHAR, NC_BYTE, NC_SHORT, NC_INT, NC_FLOAT,
        NC_DOUBLE, NC_DOUBLE, NC_DOUBLE, NC_DOUBLE};
    if(v4) {
        for(nc_type t: {NC_UBYTE, NC_USHORT, NC_UINT, NC_UINT64, NC_INT64,
                NC_STRING, user_type}) {
            types.push_back(t);
        }
    }
    for(auto const& n: names) {
        if(!rng.chance(50)) continue;
        int const d = rng.chance(60) ? 0
            : static_cast<int>(rng.range(0, nr_dimensions));
        vs.push_back({n, rng.pick(types), d, rng.pick(interesting<double>())});
    }
    std::string conventions;
    bool const has = rng.chance(85);
    if(has) {
        if(rng.chance(40)) conventions = "COARDS";
        else if(rng.chance(50)) {
            conventions = rng.pick<std::string>({"COARDS", "CF-1.4 COARDS",
                "COARDS, CF-1.4", "CF-1.4,COARDS", "CF-1.4", "coards",
                "COARDS-1", "XCOARDS", "\tCOARDS\n", "CF 1.4, COARDS ", ""});
        }
        else {
            int const n = static_cast<int>(rng.range(0, 4));
            for(int k = 0; k < n; ++k) {
                conventions += rng.pick<std::string>({"COARDS", "CF-1.4",
                    "COAR", "DS", " ", ",", ", ", "  ", "Z"});
            }
        }
    }
    // Programs in C tend to write the terminator too. An attribute need not be
    // a text.
    std::string form = rng.chance(70) ? "text" : rng.pick<std::string>(
        {"terminated", "terminated", "numbers", "strings"});
    if(form == "strings" && !v4) { form = "numbers"; }
    std::string const other = rng.pick<std::string>(
        {"title", "history", "Conventions2", "conventions"});
    std::string const title = rng.pick<std::string>(
        {"", "x", "COARDS", "a b, c", "two words"});
    bool const with_other = rng.chance(50);
    {
        int id;
        check(nc_create(file.c_str(), NC_CLOBBER | (v4 ? NC_NETCDF4 : 0), &id));
        std::vector<int> dims;
        std::vector<std::string> const dim_names{"lat", "x", "y"};
        for(int k = 0; k < nr_dimensions; ++k) {
            dims.push_back(0);
            check(nc_def_dim(id, dim_names[k].c_str(), 1 + k, &dims.back()));
        }
        std::string const text = conventions + std::string(
            form == "terminated" ? rng.range(1, 2) : 0, '\0');
        int const numbers[] = {67, 79};
        char const* strings[] = {"COARDS", "CF-1.4"};
        if(has && form == "numbers") {
            check(nc_put_att_int(id, NC_GLOBAL, "Conventions", NC_INT,
                rng.range(1, 2), numbers));
        }
        else if(has && form == "strings") {
            check(nc_put_att_string(id, NC_GLOBAL, "Conventions",
                rng.range(1, 2), strings));
        }
        else if(has) {
            check(nc_put_att_text(id, NC_GLOBAL, "Conventions", text.size(),
                text.data()));
        }
        if(with_other) {
            check(nc_put_att_text(id, NC_GLOBAL, other.c_str(), title.size(),
                title.data()));
        }
        nc_type own = 0;
        std::vector<int> ids;
        for(auto const& v: vs) {
            ids.push_back(0);
            if(v.type == user_type && own == 0) {
                check(nc_def_opaque(id, 4, "own", &own));
            }
            check(nc_def_var(id, v.name.c_str(),
                v.type == user_type ? own : v.type, v.dimensions,
                dims.data(), &ids.back()));
            if(rng.chance(30)) {
                check(nc_put_att_text(id, ids.back(), rng.pick<std::string>(
                    {"Conventions", "units"}).c_str(), 6, "COARDS"));
            }
        }
        check(nc_enddef(id));
        for(size_t k = 0; k < vs.size(); ++k) {
            if(vs[k].type == NC_DOUBLE && vs[k].dimensions == 0) {
                check(nc_put_var_double(id, ids[k], &vs[k].value));
            }
        }
        check(nc_close(id));
    }

    std::string const wanted = rng.chance(60) && !vs.empty()
        ? rng.pick(vs).name : rng.pick(names);
    // A variable is known by its name: a path of one name.
    std::string const path = rng.chance(85) ? "/" + wanted
        : rng.pick<std::string>({"/", "/" + wanted + "/a", "/a/" + wanted,
            "/x/" + wanted + "/b"});
    std::vector<std::string> parts;
    for(size_t from = 1; from < path.size(); ) {
        size_t const to = std::min(path.find('/', from), path.size());
        parts.push_back(path.substr(from, to - from));
        from = to + 1;
    }
    std::vector<std::string> described;
    for(auto const& v: vs) {
        Json d;
        d.s("name", v.name).s("type", nc_name(v.type)).i("dims", v.dimensions)
            .s("value", v.type == NC_DOUBLE ? str(v.value) : "");
        described.push_back(d.text + "}");
    }
    std::vector<int> const codes(conventions.begin(), conventions.end());
    std::vector<int> const title_codes(title.begin(), title.end());
    Json j;
    j.s("op", "variables").s("file", plain(file)).raws("variables", described)
        .b("has", has).s("form", form).is("conventions", codes).b("hasother", with_other)
        .s("other", other).is("title", title_codes).s("wanted", wanted)
        .raw("path", str_list(parts));
    ev::begin(j);
    double value = 17.5;
    std::string error;
    fa::DontMarkNoData policy;
    error = error_of([&]() {
        fin::read_coards(policy, DataName(file + ":" + path), value); });
    int const open = nr_open();
    std::vector<std::string> listed, facts;
    bool conforms = false, has_found = false, other_found = false;
    bool bogus = false;
    std::vector<int> title_found;
    std::string direct;
    {
        auto dataset = fin::open_dataset(file);
        for(auto const& c: fin::conventions(dataset)) {
            Json x;
            x.is("c", std::vector<int>(c.begin(), c.end()));
            listed.push_back(x.text + "}");
        }
        conforms = fin::conforms_to_coards(dataset);
        has_found = fin::has_attribute(dataset, "Conventions");
        other_found = fin::has_attribute(dataset, other);
        bogus = fin::has_attribute(dataset, "units")
            || fin::contains_variable(dataset, "units");
        if(other_found) {
            std::string const t = fin::attribute<std::string>(dataset, other);
            title_found.assign(t.begin(), t.end());
        }
        for(auto const& n: names) {
            Json x;
            x.s("name", n);
            bool const there = fin::contains_variable(dataset, n);
            x.b("there", there).s("type", "").b("scalar", false);
            if(there) {
                int const id = fin::variable_id(dataset, n);
                bool own_type = false, numbers = false;
                for(auto const& v: vs) {
                    own_type = own_type || (v.name == n && v.type == user_type);
                    numbers = numbers || (v.name == n && v.type == NC_DOUBLE);
                }
                Json y;
                y.s("name", n).b("there", true)
                    .s("type", own_type ? "own"
                        : vt_name(fin::value_type_id(dataset, id)))
                    .b("scalar", fin::variable_is_scalar(dataset, id));
                x = y;
                if(n == wanted && numbers
                        && fin::variable_is_scalar(dataset, id)) {
                    double v = 17.5;
                    fin::read_variable(policy, dataset, id, v);
                    direct = str(v);
                }
            }
            facts.push_back(x.text + "}");
        }
    }
    j.s("error", error).s("value", str(value)).s("direct", direct)
        .i("open", open).i("open2", nr_open()).raws("listed", listed)
        .b("conforms", conforms).b("hasfound", has_found)
        .b("otherfound", other_found).is("titlefound", title_found)
        .b("bogus", bogus).raws("facts", facts);
    ev::end(j);
}

// -----------------------------------------------------------------------------
// Handles of datasets.

void write_tif(std::string const& file)
{
    auto driver = GetGDALDriverManager()->GetDriverByName("GTiff");
    auto d = driver->Create(file.c_str(), 1, 1, 1, GDT_Byte, nullptr);
    assert(d);
    GDALClose(d);
}

struct Gdal
{
    using Handle = fig::DatasetHandle;
    static void write(std::string const& file) { write_tif(file); }
    static Handle open(std::string const& file)
    {
        return fig::open_dataset(file, GA_ReadOnly);
    }
    static std::string name(Handle& h) { return h->GetDescription(); }
};

struct NetCdf
{
    using Handle = fin::DatasetHandle;
    static void write(std::string const& file)
    {
        int id;
        check(nc_create(file.c_str(), NC_CLOBBER, &id));
        check(nc_close(id));
    }
    static Handle open(std::string const& file)
    {
        return fin::open_dataset(file);
    }
    static std::string name(Handle& h)
    {
        char path[NC_MAX_NAME + 1];
        size_t size = 0;
        if(nc_inq_path(h.ncid(), &size, path) != NC_NOERR) return "?";
        return path;
    }
};

template<typename Api>
void handles(Rng& rng, char const* api)
{
    clean();
    std::vector<std::string> const files{"a", "b", "c"};
    for(auto const& f: files) Api::write(f);
    struct Step { std::string op; int from, to; std::string file; };
    std::vector<Step> steps;
    int const nr_slots = 3;
    std::vector<int> state(nr_slots, 0);    // None, without, with a dataset.
    int const nr_steps = static_cast<int>(rng.range(1, 14));
    std::vector<std::string> described;
    for(int k = 0; k < nr_steps; ++k) {
        int const a = static_cast<int>(rng.range(0, nr_slots - 1));
        int const b = (a + static_cast<int>(rng.range(1, nr_slots - 1)))
            % nr_slots;
        Step s;
        if(state[a] == 0) {
            s = {"open", 0, a, rng.pick(files)};
            state[a] = 2;
        }
        else if(rng.chance(25)) {
            s = {"close", 0, a, ""};
            state[a] = 0;
        }
        else {
            s = {state[b] == 0 ? "move" : "assign", a, b, ""};
            state[b] = state[a];
            state[a] = 1;
        }
        steps.push_back(s);
        Json d;
        d.s("op", s.op).i("from", s.from + 1).i("to", s.to + 1)
            .s("file", s.file);
        described.push_back(d.text + "}");
    }
    Json j;
    j.s("op", "handles").s("api", api).raws("steps", described);
    ev::begin(j);
    std::vector<std::string> seen;
    {
        std::vector<std::unique_ptr<typename Api::Handle>> slots(nr_slots);
        std::vector<bool> with(nr_slots, false);
        for(auto const& s: steps) {
            if(s.op == "open") {
                slots[s.to].reset(new typename Api::Handle(Api::open(s.file)));
                with[s.to] = true;
            }
            else if(s.op == "close") {
                slots[s.to].reset();
                with[s.to] = false;
            }
            else {
                if(s.op == "move") {
                    slots[s.to].reset(
                        new typename Api::Handle(std::move(*slots[s.from])));
                }
                else {
                    *slots[s.to] = std::move(*slots[s.from]);
                }
                with[s.to] = with[s.from];
                with[s.from] = false;
            }
            Json o;
            std::vector<std::string> names;
            for(int k = 0; k < nr_slots; ++k) {
                names.push_back(with[k] ? Api::name(*slots[k]) : "");
            }
            o.raw("names", str_list(names)).i("open", nr_open());
            seen.push_back(o.text + "}");
        }
    }
    j.raws("seen", seen).i("open", nr_open());
    ev::end(j);
}

void gdal_handles(Rng& rng) { handles<Gdal>(rng, "gdal"); }
void netcdf_handles(Rng& rng) { handles<NetCdf>(rng, "netcdf"); }

// -----------------------------------------------------------------------------
// Clients: the drivers are there as long as there is one.

void clients(Rng& rng)
{
    if(!rng.chance(15)) { gdal_handles(rng); return; }
    clean();
    write_tif("a");
    client.reset();
    std::vector<int> steps;     // Slot.
    int const n = static_cast<int>(rng.range(1, 7));
    for(int k = 0; k < n; ++k) steps.push_back(static_cast<int>(rng.range(1, 3)));
    Json j;
    j.s("op", "clients").is("steps", steps);
    ev::begin(j);
    std::vector<bool> present, readable;
    {
        std::vector<std::unique_ptr<fig::GDALClient>> slots(4);
        for(int s: steps) {
            if(slots[s]) slots[s].reset();
            else slots[s].reset(new fig::GDALClient);
            present.push_back(GetGDALDriverManager()->GetDriverCount() > 0);
            readable.push_back(error_of([]() {
                fig::open_dataset(std::string("a"), GA_ReadOnly); }).empty());
        }
    }
    j.bs("present", present).bs("readable", readable)
        .b("left", GetGDALDriverManager()->GetDriverCount() > 0)
        .i("open", nr_open());
    ev::end(j);
    client.reset(new fig::GDALClient);
}

} // namespace

int main(int argc, char** argv)
{
    ev::kinds() = {rasters, variables, unreadable, rasters, clients, variables,
        rasters, netcdf_handles};
    if(argc != 5) return ev::main(argc, argv);
    // The scratch directory is removed by the parent, also after a crash.
    std::string const out = fs::absolute(argv[4]).string();
    char dir[] = "/tmp/fern-io-XXXXXX";
    if(!mkdtemp(dir)) return 73;
    scratch = fs::canonical(dir).string();
    pid_t const pid = fork();
    if(pid == 0) {
        if(chdir(scratch.c_str()) != 0) _exit(74);
        client.reset(new fig::GDALClient);
        argv[4] = const_cast<char*>(out.c_str());
        int const status = ev::main(argc, argv);
        std::fflush(nullptr);
        _exit(status);
    }
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    fs::remove_all(scratch);
    return WIFEXITED(status) ? WEXITSTATUS(status) : 70;
}
