// The part of stim's interface that PyMatching's driver uses, with stim's documented meaning.
// (stim itself is not available offline.)
#pragma once
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <memory>
#include <vector>
namespace stim {
enum DemInstructionType : uint8_t {
    DEM_ERROR,
    DEM_SHIFT_DETECTORS,
    DEM_DETECTOR,
    DEM_LOGICAL_OBSERVABLE,
    DEM_REPEAT_BLOCK,
};
constexpr uint64_t OBSERVABLE_BIT = uint64_t{1} << 63;
constexpr uint64_t SEPARATOR_SYGIL = UINT64_MAX;
struct DemTarget {
    uint64_t data;
    static DemTarget observable_id(uint64_t id) {
        return {OBSERVABLE_BIT | id};
    }
    static DemTarget relative_detector_id(uint64_t id) {
        return {id};
    }
    static constexpr DemTarget separator() {
        return {SEPARATOR_SYGIL};
    }
    uint64_t raw_id() const {
        return data & ~OBSERVABLE_BIT;
    }
    uint64_t val() const {
        return raw_id();
    }
    bool is_observable_id() const {
        return data != SEPARATOR_SYGIL && (data & OBSERVABLE_BIT);
    }
    bool is_separator() const {
        return data == SEPARATOR_SYGIL;
    }
    bool is_relative_detector_id() const {
        return data != SEPARATOR_SYGIL && !(data & OBSERVABLE_BIT);
    }
};
struct DemInstruction {
    std::vector<double> arg_data;
    std::vector<DemTarget> target_data;
    DemInstructionType type = DEM_ERROR;
};
struct DetectorErrorModel {
    std::vector<DemInstruction> instructions;
    uint64_t num_detectors = 0, num_observables = 0;
    DetectorErrorModel() = default;
    explicit DetectorErrorModel(const char* text);
    static DetectorErrorModel from_file(FILE* file);
    uint64_t count_detectors() const {
        return num_detectors;
    }
    uint64_t count_observables() const {
        return num_observables;
    }
    template <typename CALLBACK>
    void iter_flatten_error_instructions(const CALLBACK& callback) const {
        for (const auto& i : instructions)
            callback(i);
    }
};
struct Circuit {
    uint64_t id = 0;
    static Circuit from_file(FILE* file);
};
struct ErrorAnalyzer {
    static DetectorErrorModel circuit_to_detector_error_model(
        const Circuit& circuit,
        bool decompose_errors,
        bool flatten_loops,
        bool allow_gauge_detectors,
        double approximate_disjoint_errors_threshold,
        bool ignore_decomposition_failures,
        bool block_decomposition_from_introducing_remnant_edges);
};
// Command line helpers and shot files (only declared: a witness, or a demonstration, says what they return).
enum SampleFormat : uint8_t {
    SAMPLE_FORMAT_01,
    SAMPLE_FORMAT_B8,
    SAMPLE_FORMAT_PTB64,
    SAMPLE_FORMAT_HITS,
    SAMPLE_FORMAT_R8,
    SAMPLE_FORMAT_DETS,
};
struct FileFormatData {
    const char* name;
    SampleFormat id;
};
struct vp_formats {};
inline vp_formats format_name_to_enum_map() {
    return {};
}
constexpr size_t MAX_BITWORD_WIDTH = 64;
struct vp_names {
    const char* name[16];
    size_t n = 0;
    vp_names(std::initializer_list<const char*> l) {
        for (auto x : l)
            if (n < 16)
                name[n++] = x;
    }
};
void check_for_unknown_arguments(
    const vp_names& known, const vp_names& deprecated, const char* for_mode, int argc, const char** argv);
FILE* find_open_file_argument(const char* name, FILE* default_file, const char* mode, int argc, const char** argv);
bool find_bool_argument(const char* name, int argc, const char** argv);
FileFormatData find_enum_argument(
    const char* name, const char* default_value, const vp_formats& formats, int argc, const char** argv);
struct SparseShot {
    std::vector<uint64_t> hits;
    uint64_t obs_mask = 0;
    void clear() {
        hits.clear();
        obs_mask = 0;
    }
    uint64_t obs_mask_as_u64() const {
        return obs_mask;
    }
};
template <size_t W>
struct MeasureRecordReader {
    FILE* file;
    static std::unique_ptr<MeasureRecordReader> make(
        FILE* in, SampleFormat format, size_t num_measurements, size_t num_detectors, size_t num_observables);
    bool start_and_read_entire_record(SparseShot& out);
};
struct MeasureRecordWriter {
    FILE* file;
    static std::unique_ptr<MeasureRecordWriter> make(FILE* out, SampleFormat format);
    void begin_result_type(char c);
    void write_bit(bool b);
    void write_end();
};
}  // namespace stim
