//! property: R20
//! target: the command line (pymatching predict, count_mistakes)
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY -DVP_STRINGS -fno-threadsafe-statics -fno-c++-static-destructors -fexceptions -fcxx-exceptions -DVP_CAP=10
// The command line with stim's argument parsing and shot files replaced by scripts, and the decoder by arbitrary predictions.
#include "driver.h"
#include "reject.h"
static FILE *f_in, *f_out, *f_dem, *f_obs;
static int closed_in, closed_out, closed_dem;
static bool opt_append, opt_corr, opt_time, opt_obs_default, opt_std;
static size_t n_shots, n_obs, shots_read, obs_read, decoded, bits_written, ends_written, obs_shots;
static unsigned printed;
static size_t printed_mistakes, printed_shots;
static bool began;
static char cell[8];
static std::vector<uint8_t>* D;
template <class... A>
inline int vp_fprintf(FILE* f, const char* format, const A&... a) {
    if constexpr (sizeof...(A) == 2) {
        CHECK(f == f_out && printed == 0);
        CHECK(__builtin_strcmp(format, "%zu / %zu\n") == 0);
        size_t v[] = {(size_t)a...};
        printed_mistakes = v[0];
        printed_shots = v[1];
        printed++;
        return 1;
    } else
        vp_overflow();
}
#define fprintf vp_fprintf
#undef stdin
#undef stdout
#define stdin ((FILE*)(cell + 4))
#define stdout ((FILE*)(cell + 5))
#define cerr vp_cerr
namespace std {
static vp_stringstream vp_cerr;
}
template <>
std::unique_ptr<stim::MeasureRecordReader<64>> stim::MeasureRecordReader<64>::make(FILE*, SampleFormat, size_t, size_t, size_t);
template <>
bool stim::MeasureRecordReader<64>::start_and_read_entire_record(SparseShot&);
#include "pymatching/sparse_blossom/driver/namespaced_main.cc"
#undef fprintf
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    return {};
}
extern "C" int fclose(FILE* f) {
    if (f == f_in)
        closed_in++;
    else if (f == f_out) {
        CHECK(ends_written == n_shots || printed == 1);
        closed_out++;
    } else if (f == f_dem)
        closed_dem++;
    else
        CHECK(f == f_obs);
    return 0;
}
inline bool is(const char* a, const char* b) {
    return __builtin_strcmp(a, b) == 0;
}
void stim::check_for_unknown_arguments(const vp_names&, const vp_names&, const char*, int, const char**) {
}
FILE* stim::find_open_file_argument(const char* name, FILE* fallback, const char* mode, int, const char**) {
    if (is(name, "--in")) {
        CHECK(fallback == stdin && mode[0] == 'r');
        return f_in;
    }
    if (is(name, "--out")) {
        CHECK(fallback == stdout && mode[0] == 'w');
        return f_out;
    }
    if (is(name, "--dem"))
        return f_dem;
    if (is(name, "--obs_in")) {
        if (opt_obs_default) {
            if (fallback == nullptr)
                throw 1;
            return fallback;
        }
        return f_obs;
    }
    vp_overflow();
}
bool stim::find_bool_argument(const char* name, int, const char**) {
    if (is(name, "--in_includes_appended_observables"))
        return opt_append;
    if (is(name, "--enable_correlations"))
        return opt_corr;
    if (is(name, "--time"))
        return opt_time;
    vp_overflow();
}
stim::FileFormatData stim::find_enum_argument(const char* name, const char*, const vp_formats&, int, const char**) {
    if (is(name, "--in_format"))
        return {"", SAMPLE_FORMAT_B8};
    if (is(name, "--out_format"))
        return {"", SAMPLE_FORMAT_HITS};
    if (is(name, "--obs_in_format"))
        return {"", SAMPLE_FORMAT_R8};
    vp_overflow();
}
stim::DetectorErrorModel stim::DetectorErrorModel::from_file(FILE* f) {
    CHECK(f == f_dem && closed_dem == 0);
    DetectorErrorModel d;
    d.num_detectors = any_u64<91>();
    d.num_observables = n_obs;
    return d;
}
template <>
std::unique_ptr<stim::MeasureRecordReader<64>> stim::MeasureRecordReader<64>::make(
    FILE* in, SampleFormat format, size_t measurements, size_t detectors, size_t observables) {
    CHECK(measurements == 0);
    if (in == f_in) {
        CHECK(format == SAMPLE_FORMAT_B8 && detectors == any_u64<91>() && observables == (opt_append ? n_obs : 0));
    } else {
        CHECK(in == f_obs && format == SAMPLE_FORMAT_R8 && detectors == 0 && observables == n_obs);
    }
    auto r = std::unique_ptr<stim::MeasureRecordReader<64>>(new stim::MeasureRecordReader<64>());
    r->file = in;
    return r;
}
template <int K>
inline uint64_t shot_mask(size_t i) {
    return i == 0 ? any_u64<K>() : i == 1 ? any_u64<K + 1>() : any_u64<K + 2>();
}
template <>
bool stim::MeasureRecordReader<64>::start_and_read_entire_record(SparseShot& out) {
    CHECK(out.hits.size() == 0 && out.obs_mask == 0);
    if (file == f_in) {
        CHECK(closed_in == 0);
        if (shots_read >= n_shots)
            return false;
        out.hits.push_back(shot_mask<10>(shots_read));
        if (shots_read == 1)
            out.hits.push_back(any_u64<15>());
        if (opt_append)
            out.obs_mask = shot_mask<20>(shots_read);
        shots_read++;
        return true;
    }
    CHECK(file == f_obs);
    if (obs_read >= obs_shots)
        return false;
    out.obs_mask = shot_mask<20>(obs_read);
    obs_read++;
    return true;
}
std::unique_ptr<stim::MeasureRecordWriter> stim::MeasureRecordWriter::make(FILE* out, SampleFormat format) {
    CHECK(out == f_out && format == SAMPLE_FORMAT_HITS);
    auto r = std::unique_ptr<stim::MeasureRecordWriter>(new stim::MeasureRecordWriter());
    r->file = out;
    return r;
}
void stim::MeasureRecordWriter::begin_result_type(char c) {
    CHECK(c == 'L' && !began && ends_written == 0);
    began = true;
}
template <int K>
inline uint8_t prediction(size_t shot, size_t k) {
    uint64_t m = k == 0   ? shot_mask<K>(shot)
                 : k == 1 ? shot_mask<K + 3>(shot)
                 : k == 2 ? shot_mask<K + 6>(shot)
                 : k == 3 ? shot_mask<K + 9>(shot)
                 : k == 4 ? shot_mask<K + 12>(shot)
                 : k < 8  ? 0
                          : shot_mask<K + 15>(shot);
    return (uint8_t)(m & 1);
}
void stim::MeasureRecordWriter::write_bit(bool b) {
    CHECK(began && decoded == ends_written + 1 && bits_written < n_obs && closed_out == 0);
    CHECK(((uint8_t)b ^ prediction<50>(ends_written, bits_written)) == 0);
    bits_written++;
}
void stim::MeasureRecordWriter::write_end() {
    CHECK(bits_written == n_obs && decoded == ends_written + 1);
    bits_written = 0;
    ends_written++;
}
Mwpm pm::detector_error_model_to_mwpm(
    const stim::DetectorErrorModel& d, pm::weight_int distinct, bool search, bool correlations) {
    CHECK(d.num_detectors == any_u64<91>() && d.num_observables == n_obs);
    CHECK(distinct == pm::NUM_DISTINCT_WEIGHTS && correlations == opt_corr);
    CHECK(search || !opt_corr);
    Mwpm m(GraphFlooder(MatchingGraph(0, n_obs)));
    return m;
}
inline void right_shot(const std::vector<uint64_t>& ev, bool correlations) {
    CHECK(correlations == opt_corr && shots_read == decoded + 1);
    CHECK(ev.size() == (decoded == 1 ? 2u : 1u));
    CHECK(ev[0] == shot_mask<10>(decoded));
    if (decoded == 1)
        CHECK(ev[1] == any_u64<15>());
}
void pm::decode_detection_events(
    Mwpm&, const std::vector<uint64_t>& ev, uint8_t* obs, total_weight_int& weight, bool correlations) {
    right_shot(ev, correlations);
    for (size_t k = 0; k < n_obs; k++)
        obs[k] ^= prediction<50>(decoded, k);
    weight += (total_weight_int)any_u64<40>();
    decoded++;
}
MatchingResult pm::decode_detection_events_for_up_to_64_observables(
    Mwpm&, const std::vector<uint64_t>& ev, bool correlations) {
    CHECK(n_obs <= 64);
    right_shot(ev, correlations);
    MatchingResult r;
    r.obs_mask = shot_mask<30>(decoded);
    r.weight = (total_weight_int)any_u64<40>();
    decoded++;
    return r;
}
int pm::main_animation(int, const char**) {
    return 7;
}
inline void at_throw(int mode) {
    if (mode == 2)
        CHECK(printed == 0);
    if (mode == 3)
        CHECK(decoded == 0 && printed == 0);
}
#define CLI(shots, obs)                                             \
    f_in = (FILE*)(cell + 0);                                       \
    f_out = (FILE*)(cell + 1);                                      \
    f_dem = (FILE*)(cell + 2);                                      \
    f_obs = (FILE*)(cell + 3);                                      \
    closed_in = closed_out = closed_dem = 0;                        \
    opt_append = opt_corr = opt_time = opt_obs_default = false;     \
    n_shots = shots;                                                \
    obs_shots = shots;                                              \
    n_obs = obs;                                                    \
    shots_read = obs_read = decoded = bits_written = ends_written = 0; \
    printed = 0;                                                    \
    began = false;                                                  \
    on_throw = 0
inline int run(const char* command) {
    const char* argv[] = {"pymatching", command};
    return pm::main(2, argv);
}
#define FILES_CLOSED() CHECK(closed_in == 1 && closed_out == 1 && closed_dem == 1)
//@ predict writes the predicted observables of every shot in order, nothing else, and closes its files
WITNESS(c_predict) {
    CLI(3, 2);
    int r = run("predict");
    CHECK(r == EXIT_SUCCESS && decoded == 3 && ends_written == 3);
    FILES_CLOSED();
    REACH();
}
WITNESS(c_predict_correlated) {
    CLI(2, 1);
    opt_corr = true;
    int r = run("predict");
    CHECK(r == EXIT_SUCCESS && decoded == 2 && ends_written == 2);
    REACH();
}
WITNESS(c_predict_appended) {
    CLI(2, 3);
    opt_append = true;
    int r = run("predict");
    CHECK(r == EXIT_SUCCESS && decoded == 2 && ends_written == 2);
    FILES_CLOSED();
    REACH();
}
WITNESS(c_predict_five_observables) {
    CLI(2, 5);
    int r = run("predict");
    CHECK(r == EXIT_SUCCESS && decoded == 2 && ends_written == 2);
    REACH();
}
WITNESS(c_predict_nine_observables) {
    CLI(2, 9);
    int r = run("predict");
    CHECK(r == EXIT_SUCCESS && decoded == 2 && ends_written == 2);
    REACH();
}
WITNESS(c_predict_no_shots) {
    CLI(0, 2);
    int r = run("predict");
    CHECK(r == EXIT_SUCCESS && decoded == 0 && ends_written == 0);
    FILES_CLOSED();
    REACH();
}
WITNESS(c_predict_no_observables) {
    CLI(2, 0);
    int r = run("predict");
    CHECK(r == EXIT_SUCCESS && decoded == 2 && ends_written == 2);
    REACH();
}
//@ predict reads standard input and writes standard output without closing them
WITNESS(c_predict_standard) {
    CLI(1, 1);
    f_in = stdin;
    f_out = stdout;
    int r = run("predict");
    CHECK(r == EXIT_SUCCESS && closed_in == 0 && closed_out == 0 && ends_written == 1);
    REACH();
}
inline size_t wrong(size_t i) {
    return shot_mask<20>(i) != shot_mask<30>(i);
}
//@ count_mistakes counts the shots whose prediction differs from the recorded observables
WITNESS(c_count_appended) {
    CLI(3, 2);
    opt_append = true;
    f_obs = stdin;
    int r = run("count_mistakes");
    CHECK(r == EXIT_SUCCESS && printed == 1 && decoded == 3);
    CHECK(printed_shots == 3 && printed_mistakes == wrong(0) + wrong(1) + wrong(2));
    FILES_CLOSED();
    REACH();
}
WITNESS(c_count_file) {
    CLI(3, 2);
    int r = run("count_mistakes");
    CHECK(r == EXIT_SUCCESS && printed == 1 && decoded == 3 && obs_read == 3);
    CHECK(printed_shots == 3 && printed_mistakes == wrong(0) + wrong(1) + wrong(2));
    FILES_CLOSED();
    REACH();
}
WITNESS(c_count_correlated) {
    CLI(1, 1);
    opt_corr = true;
    int r = run("count_mistakes");
    CHECK(r == EXIT_SUCCESS && printed == 1 && printed_shots == 1 && printed_mistakes == wrong(0));
    REACH();
}
WITNESS(c_count_timed) {
    CLI(1, 1);
    opt_time = true;
    int r = run("count_mistakes");
    CHECK(r == EXIT_SUCCESS && printed == 1 && printed_shots == 1 && printed_mistakes == wrong(0));
    REACH();
}
//@ recorded observables that end before the shots are rejected
WITNESS(c_count_short) {
    CLI(2, 1);
    obs_shots = 1;
    on_throw = 2;
    run("count_mistakes");
    ACCEPTED();
}
//@ without any recorded observables there is nothing to count against
WITNESS(c_count_nothing_recorded) {
    CLI(2, 1);
    opt_obs_default = true;
    on_throw = 3;
    run("count_mistakes");
    ACCEPTED();
}
//@ more observables than one word holds
WITNESS(c_count_many_observables) {
    CLI(1, 65);
    on_throw = 3;
    run("count_mistakes");
    REACH();
}
//@ other commands
WITNESS(c_animate) {
    CLI(0, 0);
    CHECK(run("animate") == 7);
    REACH();
}
WITNESS(c_unknown) {
    CLI(0, 0);
    on_throw = 3;
    run("predictions");
    ACCEPTED();
}
WITNESS(c_no_command) {
    CLI(0, 0);
    on_throw = 3;
    const char* argv[] = {"pymatching"};
    pm::main(1, argv);
    ACCEPTED();
}
