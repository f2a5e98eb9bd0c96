// Builds fuzzylite engines from descriptions, through different public routes.
#pragma once
#include "fl/Headers.h"
#include "model.h"

#include <memory>

typedef std::unique_ptr<fl::Engine> EngineP;

namespace build {
    fl::TNorm* tnorm(const std::string& n);
    fl::SNorm* snorm(const std::string& n);
    fl::Norm* norm(const std::string& n);
    fl::Defuzzifier* defuzzifier(const model::Variable& v);
    fl::Activation* activation(const model::Activation& a);
    fl::Term* term(const model::Term& t, const fl::Engine* engine);
    fl::InputVariable* input(const model::Variable& v, const fl::Engine* engine);
    fl::OutputVariable* output(const model::Variable& v, const fl::Engine* engine);
    fl::RuleBlock* block(const model::Block& b, const fl::Engine* engine);
    // programmatically, with constructors and setters
    EngineP engine(const model::Engine& e);
    // FLL text of the description, written by this harness
    std::string fll(const model::Engine& e);
    std::string fllTerm(const model::Term& t);

    // values of all outputs
    std::vector<double> outputs(const fl::Engine& e);
    void setInputs(fl::Engine& e, const std::vector<double>& x);
    // inputs for a sequence of steps
    std::vector<std::vector<double>> genInputs(pbt::Src& s, const model::Engine& e, int steps, bool nan = false);
    // runs an engine over rows; outputs of all rows. Exceptions are recorded as a text
    struct Run {
        std::vector<std::vector<double>> rows;
        std::string error;
    };
    Run run(fl::Engine& e, const std::vector<std::vector<double>>& in);
    // "" if equal
    std::string diff(const Run& a, const Run& b, double rel, double abs);
    std::string show(const std::vector<double>& v);
    // decimals in the texts of the library and of this harness
    struct Precision {
        explicit Precision(int d) { fl::fuzzylite::setDecimals(model::precision = d); }
        ~Precision() { fl::fuzzylite::setDecimals(model::precision = 3); }
    };
    // parts that are not of the library, registered in its factories while this lives
    struct Own {
        Own();
        ~Own();
        // replaces some parts by own ones, the same in all blocks and outputs
        void replace(pbt::Src& s, fl::Engine& e) const;
    };
    // whether an exception says more than where it was raised
    bool says(const fl::Exception& x);
}
