// Independent description ("spec") of engines, generators for it, and a reference model of fuzzy inference.
// Nothing in this file uses the library under test.
#pragma once
#include "pbt.h"

#include <memory>

namespace model {
    using pbt::Case;
    using pbt::Src;

    extern const double NaN, Inf;

    // ---------------------------------------------------------------- numbers
    // The reference uses exact comparisons; the library compares with a small tolerance (1e-6), so a comparison of
    // two values that differ by an amount around that tolerance makes the case "fragile" and it is discarded.
    extern bool fragile;
    int cmp(double a, double b);  // -1, 0, 1; 2 if any is NaN
    inline bool lt(double a, double b) { return cmp(a, b) == -1; }
    inline bool le(double a, double b) { int c = cmp(a, b); return c == -1 || c == 0; }
    inline bool gt(double a, double b) { return cmp(a, b) == 1; }
    inline bool ge(double a, double b) { int c = cmp(a, b); return c == 1 || c == 0; }
    inline bool eq(double a, double b) { return cmp(a, b) == 0; }

    // ---------------------------------------------------------------- formulas
    struct Expr;
    typedef std::shared_ptr<Expr> ExprP;

    struct Expr {
        enum Kind { Number, Variable, Unary, Binary, Call } kind = Number;
        double value = 0;
        std::string name;  // variable, operator or function
        std::vector<ExprP> args;
    };

    typedef std::map<std::string, double> Env;
    double eval(const ExprP& e, const Env& env);
    std::string infix(const ExprP& e, Src* s = nullptr);  // with optional redundant parentheses and spacing from s
    ExprP number(double v);
    ExprP variable(const std::string& n);
    ExprP node(Expr::Kind k, const std::string& n, std::vector<ExprP> args);
    // well-behaved formulas: finite everywhere for finite variables
    ExprP genTameFormula(Src& s, const std::vector<std::string>& vars, int depth);

    // ---------------------------------------------------------------- engine description
    struct Term {
        std::string cls, name;
        double height = 1;
        std::vector<double> p;
        std::vector<std::pair<double, double>> xy;
        ExprP formula;
        std::string formulaText;
    };

    struct Variable {
        std::string name, description;
        bool enabled = true, lockRange = false;
        double min = 0, max = 1;
        std::vector<Term> terms;
        // output variables
        bool output = false;
        std::string aggregation, defuzzifier;  // "" is none
        int resolution = 100;
        std::string weightedType = "Automatic";
        double defaultValue = NaN;
        bool lockPrevious = false;
    };

    struct Proposition {
        std::string var;
        std::vector<std::string> hedges;
        std::string term;  // may be empty after hedge any
    };

    struct Cond;
    typedef std::shared_ptr<Cond> CondP;

    struct Cond {
        std::string op;  // "" proposition, "and", "or"
        Proposition prop;
        CondP left, right;
    };

    struct Rule {
        CondP antecedent;
        std::vector<Proposition> consequent;
        double weight = 1;
        bool enabled = true;
        std::string text;  // rendered
    };

    struct Activation {
        std::string cls = "General";
        int n = 1;
        double threshold = 0;
        std::string comparison = ">=";
    };

    struct Block {
        std::string name, description;
        bool enabled = true;
        std::string conjunction, disjunction, implication;
        Activation activation;
        std::vector<Rule> rules;
    };

    struct Engine {
        std::string name, description;
        std::vector<Variable> inputs, outputs;
        std::vector<Block> blocks;
        const Variable* find(const std::string& n) const;
    };

    const std::vector<std::string>& tnorms();
    const std::vector<std::string>& snorms();
    const std::vector<std::string>& hedges();  // without "any"
    const std::vector<std::string>& integralDefuzzifiers();
    const std::vector<std::string>& mamdaniTerms();    // terms with a membership function of x only
    const std::vector<std::string>& monotonicTerms();  // Tsukamoto

    // ---------------------------------------------------------------- rendering of rules
    extern int precision;  // decimals of the numbers in texts
    std::string num(double v, int decimals = -1);
    std::string spell(Src& s, double v);  // the number that num writes, in any notation
    std::string propText(const Proposition& p);
    std::string condText(const CondP& c, Src* s = nullptr, int parent = 0, bool rightChild = false);
    std::string ruleText(const Rule& r, Src* s = nullptr);
    std::string describe(const Engine& e);
    std::string describe(const Term& t);
    std::string termParameters(const Term& t);

    // ---------------------------------------------------------------- generators
    struct GenOptions {
        int minInputs = 1, maxInputs = 3, minOutputs = 1, maxOutputs = 2, maxBlocks = 2, maxRules = 5, maxTerms = 4;
        bool functions = true, linear = true;
        bool mamdani = true, takagi = true, tsukamoto = true, hybrid = true;
        bool disabled = true;         // disabled variables, blocks, rules
        bool outputsInAntecedent = true;
        bool hedgesInConsequent = true;
        bool hedgesAnywhere = false;  // also in conclusions followed by others (see known_findings.txt)
        bool activations = true;      // other than General
        bool lockFlags = true;
        bool lockPrevious = true;
        bool any = true;
        bool infiniteTerms = true;
        bool heights = true;
        bool tall = false;            // heights over 1
        bool weights = true;
        bool descriptions = false;
        bool wildDescriptions = false;  // texts with colons, quotes, etc.
        bool norms = true;            // false: Minimum/Maximum only
        bool randomText = false;      // random redundant parentheses and spacing in rules
        int maxResolution = 100;
        bool integralOnly = false;
        bool emptyTermsAllowed = false;
        bool grow = true;             // one engine in twelve may have more of everything that defaults allow several of
    };

    std::string genName(Src& s, std::set<std::string>& used);
    Term genTerm(Src& s, const std::string& cls, const std::string& name, double lo, double hi, const GenOptions& o);
    Term genMamdaniTerm(Src& s, const std::string& name, double lo, double hi, const GenOptions& o);
    CondP genCond(Src& s, const std::vector<const Variable*>& vars, int depth, const GenOptions& o);
    Engine genEngine(Src& s, const GenOptions& o);
    void refine(Src& s, Engine& e, bool randomText = false);  // nine decimals in its numbers instead of three; same shapes
    void heavy(Src& s, Engine& e);  // weights of rules over one
    double genInput(Src& s, const Variable& v);  // a value inside, at the edges of, or outside of the range

    // ---------------------------------------------------------------- reference semantics
    double tnorm(const std::string& n, double a, double b);
    double snorm(const std::string& n, double a, double b);
    double norm(const std::string& n, double a, double b);
    double hedge(const std::string& n, double x);
    struct World {  // what Linear and Function terms refer to
        std::vector<double> inputs;
        Env env;
    };
    double membership(const Term& t, double x, const World* w = nullptr);
    double tsukamoto(const Term& t, double y);
    bool isMonotonic(const std::string& cls);
    bool isTakagiSugeno(const std::string& cls);

    struct Activated {
        const Term* term;
        double degree;
        std::string implication;
    };

    struct RefOutput {
        double value = NaN, previous = NaN;
        std::vector<Activated> fuzzy;
    };

    struct RefError {
        std::string what;
    };

    // Reference interpreter of an engine description.
    class Machine {
      public:
        const Engine& e;
        std::vector<double> in;
        std::vector<RefOutput> out;
        std::vector<std::vector<double>> degrees;  // activation degrees of the rules of the last process
        std::vector<std::vector<bool>> triggered;

        explicit Machine(const Engine& engine);
        void setInput(size_t i, double v);
        void restart();
        void process();
        World world() const;
        double evalCond(const CondP& c, const Block& b);
        double evalProp(const Proposition& p);
        double aggregated(const Variable& v, const RefOutput& o, double x, const World& w) const;
        // defuzzified crisp value of the fuzzy output, before default and lock handling. Sets fragile on ties.
        double defuzzify(const Variable& v, const RefOutput& o);
    };

    double integralDefuzzify(const std::string& cls, const std::function<double(double)>& mu, double lo, double hi, int res,
        const std::function<std::vector<double>(double)>& parts = nullptr
    );
    double weightedDefuzzify(
        const std::string& cls, const std::string& type, const std::string& aggregation, const std::vector<Activated>& terms,
        const World& w
    );
}
