// Builds programs with matrix products, maps them to the accelerator and generates their code with the real mapper,
// dispatcher and code generator.  Output: <dir>/<fn>.cpp/.h, <dir>/<kernel>.et.cpp, <dir>/fns.json
#include <filesystem>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>

#include "docc/target/et/target.h"
#include "sdfg/builder/structured_sdfg_builder.h"
#include "sdfg/codegen/code_generators/cpp_code_generator.h"
#include "sdfg/codegen/dispatchers/node_dispatcher_registry.h"
#include "sdfg/codegen/instrumentation/arg_capture_plan.h"
#include "sdfg/codegen/instrumentation/instrumentation_plan.h"
#include "sdfg/data_flow/library_nodes/math/blas/gemm_node.h"
#include "sdfg/plugins/plugins.h"
#include "sdfg/serializer/json_serializer.h"

namespace fs = std::filesystem;
using namespace sdfg;
using json = nlohmann::json;

symbolic::Expression ex(const json& j) {
    if (j.is_number()) return symbolic::integer(j.get<int>());
    if (j.is_string()) return symbolic::symbol(j.get<std::string>());
    auto a = ex(j[1]), b = ex(j[2]);
    if (j[0] == "+") return symbolic::add(a, b);
    if (j[0] == "-") return symbolic::sub(a, b);
    return symbolic::mul(a, b);
}

void gemm(builder::StructuredSDFGBuilder& b, structured_control_flow::Sequence& seq, const json& o, int no) {
    bool dbl = o.value("double", false);
    types::Scalar sc(dbl ? types::PrimitiveType::Double : types::PrimitiveType::Float);
    types::Pointer ptr(sc);
    std::string name[3] = {o["a"], o["b"], o["c"]};
    const char* offs[3] = {"ao", "bo", "co"};
    structured_control_flow::Block* views = nullptr;
    for (int i = 0; i < 3; i++) {
        if (!o.contains(offs[i])) continue;
        if (!views) views = &b.add_block(seq);
        std::string v = b.find_new_name(name[i] + "_ref");
        if (o.value("opaque", false)) b.add_container(v, types::Pointer());
        else b.add_container(v, ptr);
        auto& from = b.add_access(*views, name[i]);
        auto& to = b.add_access(*views, v);
        b.add_reference_memlet(*views, from, to, {ex(o[offs[i]])}, ptr);
        name[i] = v;
    }
    auto& blk = b.add_block(seq);
    auto& g = b.add_library_node<math::blas::GEMMNode>(
        blk, DebugInfo(), math::blas::ImplementationType_BLAS, dbl ? math::blas::BLAS_Precision::d : math::blas::BLAS_Precision::s,
        o.value("col", false) ? math::blas::BLAS_Layout::ColMajor : math::blas::BLAS_Layout::RowMajor,
        o.value("ta", false) ? math::blas::BLAS_Transpose::Trans : math::blas::BLAS_Transpose::No, o.value("tb", false) ? math::blas::BLAS_Transpose::Trans : math::blas::BLAS_Transpose::No,
        ex(o["m"]), ex(o["n"]), ex(o["k"]), ex(o["lda"]), ex(o["ldb"]), ex(o["ldc"])
    );
    auto& an = b.add_access(blk, name[0]);
    b.add_computational_memlet(blk, an, g, "__A", {}, ptr);
    b.add_computational_memlet(blk, name[1] == name[0] ? an : b.add_access(blk, name[1]), g, "__B", {}, ptr);
    b.add_computational_memlet(blk, b.add_access(blk, name[2]), g, "__C", {}, ptr);
    for (auto* s : {"alpha", "beta"}) {
        std::string v = o[s];
        bool num = isdigit(v[0]) || v[0] == '-';
        data_flow::AccessNode& n = num ? static_cast<data_flow::AccessNode&>(b.add_constant(blk, v, sc)) : b.add_access(blk, v);
        b.add_computational_memlet(blk, n, g, std::string("__") + s, {}, sc);
    }
    b.add_computational_memlet(blk, g, "__C", b.add_access(blk, name[2]), {}, ptr);
}

int main(int argc, char** argv) {
    fs::path dir = argv[1];
    json specs = json::parse(std::ifstream(argv[2]));
    plugins::Context ctx = plugins::Context::global_context();
    codegen::register_default_dispatchers();
    serializer::register_default_serializers();
    docc::target::et::register_plugin(ctx);
    json out = json::array();
    for (auto& s : specs) {
        json r = {{"name", s["name"]}, {"kernels", json::array()}, {"error", ""}, {"args", json::array()}, {"offloaded", 0}};
        try {
            builder::StructuredSDFGBuilder b(s["name"].get<std::string>(), FunctionType_CPU);
            for (auto& a : s["args"]) {
                std::string t = a[1];
                if (t == "i") b.add_container(a[0], types::Scalar(types::PrimitiveType::Int64), true);
                if (t == "f") b.add_container(a[0], types::Scalar(types::PrimitiveType::Float), true);
                if (t == "F") b.add_container(a[0], types::Pointer(types::Scalar(types::PrimitiveType::Float)), true);
                if (t == "D") b.add_container(a[0], types::Pointer(types::Scalar(types::PrimitiveType::Double)), true);
                r["args"].push_back(a);
            }
            int no = 0;
            for (auto& o : s["ops"]) {
                structured_control_flow::Sequence* seq = &b.subject().root();
                if (o.contains("loop")) {
                    std::string iv = o["loop"][0];
                    if (!b.subject().exists(iv)) b.add_container(iv, types::Scalar(types::PrimitiveType::Int64));
                    auto s = symbolic::symbol(iv);
                    seq = &b.add_for(*seq, s, symbolic::Lt(s, ex(o["loop"][1])), symbolic::integer(0), symbolic::add(s, symbolic::integer(1))).root();
                }
                gemm(b, *seq, o, no++);
            }
            auto& g = b.subject();
            g.validate();
            analysis::AnalysisManager am(g);
            docc::target::et::et_scheduling_passes(b, am, "server");
            auto ip = codegen::InstrumentationPlan::none(g);
            auto cp = codegen::ArgCapturePlan::none(g);
            std::pair<fs::path, fs::path> lc = {"/simroot/out", dir / (g.name() + ".h")};
            auto fac = std::make_shared<codegen::CodeSnippetFactory>(&lc);
            codegen::CPPCodeGenerator gen(g, am, *ip, *cp, fac);
            gen.generate();
            if (!gen.as_source(dir / (g.name() + ".h"), dir / (g.name() + ".cpp"))) throw std::runtime_error("sources not written");
            for (auto& [n, sn] : fac->snippets()) {
                if (!sn.is_as_file()) continue;
                std::ofstream(dir / (n + "." + sn.extension())) << sn.stream().str();
                if (sn.extension() == docc::target::et::ETSOC_KERNEL_FILE_EXT) r["kernels"].push_back(n);
            }
            r["order"] = g.arguments();
        } catch (std::exception& e) {
            r["error"] = e.what();
        }
        out.push_back(r);
    }
    std::ofstream(dir / "fns.json") << out.dump(1);
    return 0;
}
