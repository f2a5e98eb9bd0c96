From e03cb36d1143e0f91a975e773bf9f45d913f6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 01/39] fix: maximum defuzzifiers result in nan when the fuzzy
 set is empty or all zero

---
 src/defuzzifier/LargestOfMaximum.cpp  | 5 +++--
 src/defuzzifier/MeanOfMaximum.cpp     | 5 +++--
 src/defuzzifier/SmallestOfMaximum.cpp | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/defuzzifier/LargestOfMaximum.cpp b/src/defuzzifier/LargestOfMaximum.cpp
index c7784f1..d97ecbd 100644
--- a/src/defuzzifier/LargestOfMaximum.cpp
+++ b/src/defuzzifier/LargestOfMaximum.cpp
@@ -35,12 +35,13 @@ namespace fuzzylite {
             return fl::nan;
         const int resolution = getResolution();
         const scalar dx = (maximum - minimum) / resolution;
-        scalar ymax = -fl::inf;
+        // only x where y > 0 are maxima: an empty fuzzy set has none, and it results in nan
+        scalar ymax = 0.0;
         scalar lom = fl::nan;
         for (int i = 0; i < resolution; ++i) {
             const scalar x = minimum + (i + 0.5) * dx;
             const scalar y = term->membership(x);
-            if (y >= ymax) {
+            if (y > 0.0 and y >= ymax) {
                 lom = x;
                 ymax = y;
             }
diff --git a/src/defuzzifier/MeanOfMaximum.cpp b/src/defuzzifier/MeanOfMaximum.cpp
index b912c34..6fa8099 100644
--- a/src/defuzzifier/MeanOfMaximum.cpp
+++ b/src/defuzzifier/MeanOfMaximum.cpp
@@ -35,7 +35,8 @@ namespace fuzzylite {
             return fl::nan;
         const int resolution = getResolution();
         const scalar dx = (maximum - minimum) / resolution;
-        scalar ymax = -fl::inf;
+        // only x where y > 0 are maxima: an empty fuzzy set has none, and it results in nan
+        scalar ymax = 0.0;
         std::vector<scalar> maxima;
         for (int i = 0; i < resolution; ++i) {
             const scalar x = minimum + (i + 0.5) * dx;
@@ -44,7 +45,7 @@ namespace fuzzylite {
                 maxima.clear();
                 maxima.push_back(x);
                 ymax = y;
-            } else if (y == ymax)
+            } else if (y > 0.0 and y == ymax)
                 maxima.push_back(x);
         }
         const scalar mom = Op::mean(maxima);
diff --git a/src/defuzzifier/SmallestOfMaximum.cpp b/src/defuzzifier/SmallestOfMaximum.cpp
index fddedca..573dc9c 100644
--- a/src/defuzzifier/SmallestOfMaximum.cpp
+++ b/src/defuzzifier/SmallestOfMaximum.cpp
@@ -35,7 +35,8 @@ namespace fuzzylite {
             return fl::nan;
         const int resolution = getResolution();
         const scalar dx = (maximum - minimum) / resolution;
-        scalar ymax = -fl::inf;
+        // only x where y > 0 are maxima: an empty fuzzy set has none, and it results in nan
+        scalar ymax = 0.0;
         scalar som = fl::nan;
         for (int i = 0; i < resolution; ++i) {
             const scalar x = minimum + (i + 0.5) * dx;
-- 
2.43.0


From ab3412fdb635bbd53cd6bc2b71ce066808918e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 02/39] fix: a function evaluates its former formula after
 failing to load another one

---
 src/term/Function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 867e447..140dfc3 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -442,6 +442,7 @@ namespace fuzzylite {
     void Function::load(const std::string& formula, const Engine* engine) {
         setFormula(formula);
         setEngine(engine);
+        this->_root.reset(fl::null);  // do not keep the former function if the formula is ill-formed
         this->_root.reset(parse(formula));
         // TODO: Remove execution of membership because it does not allow to pass variables different from x
         membership(0.0);  // make sure function evaluates without throwing exception.
-- 
2.43.0


From 689474e0b9ca21a662f50a2bdc1ab824b19ea2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 03/39] fix: nodes leak when parsing an ill-formed formula

---
 src/term/Function.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 140dfc3..bfb012e 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -611,6 +611,19 @@ namespace fuzzylite {
         std::string postfix = toPostfix(formula);
 
         std::stack<Node*> stack;
+        // release the nodes left when the formula is ill-formed
+        struct Guard {
+            std::stack<Node*>& nodes;
+
+            explicit Guard(std::stack<Node*>& nodes) : nodes(nodes) {}
+
+            ~Guard() {
+                while (not nodes.empty()) {
+                    delete nodes.top();
+                    nodes.pop();
+                }
+            }
+        } guard(stack);
 
         std::istringstream tokenizer(postfix);
         std::string token;
@@ -655,7 +668,9 @@ namespace fuzzylite {
         if (stack.size() != 1)
             throw Exception("[function error] ill-formed formula <" + formula + ">", FL_AT);
 
-        return stack.top();
+        Node* result = stack.top();
+        stack.pop();
+        return result;
     }
 
 }
-- 
2.43.0


From 771d7ef3903c9b7fbeeac3f0ac9bd7fbe22aff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 04/39] fix: expressions leak when loading an ill-formed
 antecedent

---
 src/rule/Antecedent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rule/Antecedent.cpp b/src/rule/Antecedent.cpp
index 8aba275..706997f 100644
--- a/src/rule/Antecedent.cpp
+++ b/src/rule/Antecedent.cpp
@@ -310,7 +310,7 @@ namespace fuzzylite {
                 throw Exception(ex.str(), FL_AT);
             }
         } catch (...) {
-            for (std::size_t i = 0; i < expressionStack.size(); ++i) {
+            while (not expressionStack.empty()) {
                 delete expressionStack.top();
                 expressionStack.pop();
             }
-- 
2.43.0


From 764f5c4a15d7a1883ea97f785f9f4960a0fa57be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 05/39] fix: formulas with word operators are lost when
 importing from FCL

---
 src/imex/FclImporter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 56e49d4..55503f8 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -429,10 +429,14 @@ namespace fuzzylite {
         term.reset(FactoryManager::instance()->term()->constructObject(termClass));
         term->updateReference(engine);
         term->setName(Op::validName(name));
-        std::string separator;
-        if (not dynamic_cast<Function*>(term.get()))
-            separator = " ";
-        term->configure(Op::join(parameters, separator));  // remove spaces for text of function
+        if (dynamic_cast<Function*>(term.get())) {
+            // the formula is taken as it is written, as its operators can be words (e.g., and, or)
+            const std::size_t termClassIndex = line.find(termClass, line.find(":=") + 2);
+            const std::string formula = line.substr(termClassIndex + termClass.size());
+            term->configure(Op::trim(formula.substr(0, formula.find(';'))));
+        } else {
+            term->configure(Op::join(parameters, " "));
+        }
         return term.release();
     }
 
-- 
2.43.0


From c867d45bd21382f661210521a1a2b7bee3d6a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 06/39] fix: formulas with commas or word operators are
 rejected when importing from FIS

---
 src/imex/FisImporter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 87c798c..8c1141b 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -469,6 +469,16 @@ namespace fuzzylite {
             );
         }
         std::vector<std::string> termParams = Op::split(nameTerm.at(1), ",");
+        if (termParams.size() >= 2) {
+            const std::string termClass = Op::trim(termParams.at(0));
+            if (termClass == "function" or termClass == Function().className()) {
+                // the formula is taken as it is written, as it can have commas and operators that are words
+                const std::string formula = nameTerm.at(1).substr(nameTerm.at(1).find(',') + 1);
+                return createInstance(
+                    termClass, Op::trim(nameTerm.at(0)), std::vector<std::string>(1, Op::trim(formula)), engine
+                );
+            }
+        }
         if (termParams.size() != 2) {
             throw Exception(
                 "[syntax error] expected term in format 'name':'class',[params], "
-- 
2.43.0


From 1b463866c0770edbd554a25fd283ca76d93747c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 07/39] fix: closing quote is missing from Binary terms
 exported to FIS

---
 src/imex/FisExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index 711c9af..5ce2e52 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -337,7 +337,7 @@ namespace fuzzylite {
         }
 
         if (const Binary* x = dynamic_cast<const Binary*>(term)) {
-            ss << "'binarymf,[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
+            ss << "'binarymf',[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
             return ss.str();
         }
 
-- 
2.43.0


From d25281aed1259b8a1b2f0618f9a6a0f74da90cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 08/39] fix: namespace is missing from weighted defuzzifiers
 exported to C++

---
 src/imex/CppExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index d2d0171..1d40d3b 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -238,7 +238,7 @@ namespace fuzzylite {
                    + ")";
         }
         if (const WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<const WeightedDefuzzifier*>(defuzzifier))
-            return "new " + weightedDefuzzifier->className() + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
+            return "new " + fl(weightedDefuzzifier->className()) + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
         return "new " + fl(defuzzifier->className());
     }
 
-- 
2.43.0


From 98cf6511690a8d9ea5d87b01d6e50ac9da73b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 09/39] fix: infinite and nan parameters of terms exported to
 C++ do not compile

---
 src/imex/CppExporter.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 1d40d3b..5a1da05 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -182,9 +182,13 @@ namespace fuzzylite {
 
         // todo: export height in Discrete
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
+            const std::vector<scalar> xy = Discrete::toVector(discrete->xy());
+            std::vector<std::string> values;
+            for (std::size_t i = 0; i < xy.size(); ++i)
+                values.push_back(toString(xy.at(i)));
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
-               << ", " << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << values.size() << ", "
+               << Op::join(values, ", ") << ")";
             return ss.str();
         }
 
@@ -196,15 +200,21 @@ namespace fuzzylite {
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
+            std::vector<std::string> coefficients;
+            for (std::size_t i = 0; i < linear->coefficients().size(); ++i)
+                coefficients.push_back(toString(linear->coefficients().at(i)));
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << Op::join(coefficients, ", ") << ")";
             return ss.str();
         }
 
+        std::vector<std::string> parameters = Op::split(term->parameters(), " ");
+        for (std::size_t i = 0; i < parameters.size(); ++i)
+            if (Op::isNumeric(parameters.at(i)) and not Op::isFinite(Op::toScalar(parameters.at(i))))
+                parameters.at(i) = toString(Op::toScalar(parameters.at(i)));
         std::ostringstream ss;
-        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", " << Op::join(parameters, ", ") << ")";
         return ss.str();
     }
 
-- 
2.43.0


From a220c2d599574fbfc19c7c74daf1f40ba37887b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 10/39] fix: heights of Discrete terms are missing in exported
 C++ code

---
 src/imex/CppExporter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 5a1da05..236cac2 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -180,12 +180,13 @@ namespace fuzzylite {
         if (not term)
             return "fl::null";
 
-        // todo: export height in Discrete
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             const std::vector<scalar> xy = Discrete::toVector(discrete->xy());
             std::vector<std::string> values;
             for (std::size_t i = 0; i < xy.size(); ++i)
                 values.push_back(toString(xy.at(i)));
+            if (not Op::isEq(discrete->getHeight(), 1.0))
+                values.push_back(toString(discrete->getHeight()));
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << values.size() << ", "
                << Op::join(values, ", ") << ")";
-- 
2.43.0


From 76e1ea11ce6cdd8ebe519294a7052d9888aa2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 11/39] fix: quotes and backslashes are not escaped in exported
 C++ and Java code

---
 src/imex/CppExporter.cpp  | 59 +++++++++++++++++++++++++++++----------
 src/imex/JavaExporter.cpp | 57 +++++++++++++++++++++++++++----------
 2 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 236cac2..67c28a3 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -21,6 +21,35 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    namespace {
+
+        std::string literal(const std::string& text) {
+            std::string result = "\"";
+            for (std::size_t i = 0; i < text.size(); ++i) {
+                switch (text.at(i)) {
+                    case '\\':
+                        result += "\\\\";
+                        break;
+                    case '"':
+                        result += "\\\"";
+                        break;
+                    case '\n':
+                        result += "\\n";
+                        break;
+                    case '\r':
+                        result += "\\r";
+                        break;
+                    case '\t':
+                        result += "\\t";
+                        break;
+                    default:
+                        result += text.at(i);
+                }
+            }
+            return result + "\"";
+        }
+    }
+
     CppExporter::CppExporter(bool prefixNamespace, bool usingVariableNames) :
         Exporter(),
         _usingNamespace(prefixNamespace),
@@ -58,8 +87,8 @@ namespace fuzzylite {
         if (not isUsingNamespace())
             cpp << "using namespace fuzzylite;\n\n";
         cpp << fl("Engine* ") << "engine = new " << fl("Engine;\n");
-        cpp << "engine->setName(\"" << engine->getName() << "\");\n";
-        cpp << "engine->setDescription(\"" << engine->getDescription() << "\");\n";
+        cpp << "engine->setName(" << literal(engine->getName()) << ");\n";
+        cpp << "engine->setDescription(" << literal(engine->getDescription()) << ");\n";
 
         cpp << "\n";
 
@@ -91,8 +120,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("InputVariable* ") << name << " = new " << fl("InputVariable;\n");
-        ss << name << "->setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(" << literal(inputVariable->getName()) << ");\n";
+        ss << name << "->setDescription(" << literal(inputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -119,8 +148,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("OutputVariable* ") << name << " = new " << fl("OutputVariable;\n");
-        ss << name << "->setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(" << literal(outputVariable->getName()) << ");\n";
+        ss << name << "->setDescription(" << literal(outputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -153,16 +182,16 @@ namespace fuzzylite {
 
         std::ostringstream ss;
         ss << fl("RuleBlock* ") << name << " = new " << fl("RuleBlock;\n");
-        ss << name << "->setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << "->setName(" << literal(ruleBlock->getName()) << ");\n";
+        ss << name << "->setDescription(" << literal(ruleBlock->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << "->setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
         ss << name << "->setImplication(" << toString(ruleBlock->getImplication()) << ");\n";
         ss << name << "->setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
-            ss << name << "->addRule(" << fl("Rule") << "::parse(\"" << ruleBlock->getRule(r)->getText()
-               << "\", engine));\n";
+            ss << name << "->addRule(" << fl("Rule") << "::parse(" << literal(ruleBlock->getRule(r)->getText())
+               << ", engine));\n";
         }
         ss << "engine->addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -188,15 +217,15 @@ namespace fuzzylite {
             if (not Op::isEq(discrete->getHeight(), 1.0))
                 values.push_back(toString(discrete->getHeight()));
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << values.size() << ", "
+            ss << fl(term->className()) << "::create(" << literal(term->getName()) << ", " << values.size() << ", "
                << Op::join(values, ", ") << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << fl(term->className()) << "::create(" << literal(term->getName()) << ", " << literal(function->getFormula())
+               << ", engine)";
             return ss.str();
         }
 
@@ -205,7 +234,7 @@ namespace fuzzylite {
             for (std::size_t i = 0; i < linear->coefficients().size(); ++i)
                 coefficients.push_back(toString(linear->coefficients().at(i)));
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
+            ss << fl(term->className()) << "::create(" << literal(term->getName()) << ", " << "engine, "
                << Op::join(coefficients, ", ") << ")";
             return ss.str();
         }
@@ -215,7 +244,7 @@ namespace fuzzylite {
             if (Op::isNumeric(parameters.at(i)) and not Op::isFinite(Op::toScalar(parameters.at(i))))
                 parameters.at(i) = toString(Op::toScalar(parameters.at(i)));
         std::ostringstream ss;
-        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", " << Op::join(parameters, ", ") << ")";
+        ss << "new " << fl(term->className()) << "(" << literal(term->getName()) << ", " << Op::join(parameters, ", ") << ")";
         return ss.str();
     }
 
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 8388433..91757b7 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -21,6 +21,35 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    namespace {
+
+        std::string literal(const std::string& text) {
+            std::string result = "\"";
+            for (std::size_t i = 0; i < text.size(); ++i) {
+                switch (text.at(i)) {
+                    case '\\':
+                        result += "\\\\";
+                        break;
+                    case '"':
+                        result += "\\\"";
+                        break;
+                    case '\n':
+                        result += "\\n";
+                        break;
+                    case '\r':
+                        result += "\\r";
+                        break;
+                    case '\t':
+                        result += "\\t";
+                        break;
+                    default:
+                        result += text.at(i);
+                }
+            }
+            return result + "\"";
+        }
+    }
+
     JavaExporter::JavaExporter(bool usingVariableNames) : Exporter(), _usingVariableNames(usingVariableNames) {}
 
     JavaExporter::~JavaExporter() {}
@@ -41,8 +70,8 @@ namespace fuzzylite {
         std::ostringstream ss;
         ss << "//Code automatically generated with " << fuzzylite::library() << ".\n\n";
         ss << "Engine engine = new Engine();\n";
-        ss << "engine.setName(\"" << engine->getName() << "\");\n";
-        ss << "engine.setDescription(\"" << engine->getDescription() << "\");\n";
+        ss << "engine.setName(" << literal(engine->getName()) << ");\n";
+        ss << "engine.setDescription(" << literal(engine->getDescription()) << ");\n";
         ss << "\n";
 
         for (std::size_t i = 0; i < engine->numberOfInputVariables(); ++i)
@@ -73,8 +102,8 @@ namespace fuzzylite {
             }
         }
         ss << "InputVariable " << name << " = new InputVariable();\n";
-        ss << name << ".setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(" << literal(inputVariable->getName()) << ");\n";
+        ss << name << ".setDescription(" << literal(inputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -101,8 +130,8 @@ namespace fuzzylite {
             }
         }
         ss << "OutputVariable " << name << " = new OutputVariable();\n";
-        ss << name << ".setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(" << literal(outputVariable->getName()) << ");\n";
+        ss << name << ".setDescription(" << literal(outputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -135,8 +164,8 @@ namespace fuzzylite {
         }
 
         ss << "RuleBlock " << name << " = new RuleBlock();\n";
-        ss << name << ".setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << ".setName(" << literal(ruleBlock->getName()) << ");\n";
+        ss << name << ".setDescription(" << literal(ruleBlock->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << ".setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
@@ -144,7 +173,7 @@ namespace fuzzylite {
         ss << name << ".setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t i = 0; i < ruleBlock->numberOfRules(); ++i) {
             Rule* rule = ruleBlock->getRule(i);
-            ss << name << ".addRule(Rule.parse(\"" << rule->getText() << "\", engine));\n";
+            ss << name << ".addRule(Rule.parse(" << literal(rule->getText()) << ", engine));\n";
         }
         ss << "engine.addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -157,27 +186,27 @@ namespace fuzzylite {
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
             std::vector<scalar> xy;
-            ss << term->className() << ".create(\"" << term->getName() << "\", "
+            ss << term->className() << ".create(" << literal(term->getName()) << ", "
                << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << term->className() << ".create(" << literal(term->getName()) << ", " << literal(function->getFormula())
+               << ", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
+            ss << term->className() << ".create(" << literal(term->getName()) << ", " << "engine, "
                << Op::join(linear->coefficients(), ", ") << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << term->className() << "(\"" << term->getName() << "\", "
+        ss << "new " << term->className() << "(" << literal(term->getName()) << ", "
            << Op::findReplace(term->parameters(), " ", ", ") << ")";
         return ss.str();
     }
-- 
2.43.0


From 2193a15834b63021397f6d530ba16a6b494c8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 12/39] fix: infinite and nan parameters of terms exported to
 Java do not compile

---
 src/imex/JavaExporter.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 91757b7..cd8ab4b 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -184,10 +184,12 @@ namespace fuzzylite {
             return "null";
 
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
+            const std::vector<scalar> xy = Discrete::toVector(discrete->xy());
+            std::vector<std::string> values;
+            for (std::size_t i = 0; i < xy.size(); ++i)
+                values.push_back(toString(xy.at(i)));
             std::ostringstream ss;
-            std::vector<scalar> xy;
-            ss << term->className() << ".create(" << literal(term->getName()) << ", "
-               << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+            ss << term->className() << ".create(" << literal(term->getName()) << ", " << Op::join(values, ", ") << ")";
             return ss.str();
         }
 
@@ -199,15 +201,22 @@ namespace fuzzylite {
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
+            std::vector<std::string> coefficients;
+            for (std::size_t i = 0; i < linear->coefficients().size(); ++i)
+                coefficients.push_back(toString(linear->coefficients().at(i)));
             std::ostringstream ss;
             ss << term->className() << ".create(" << literal(term->getName()) << ", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << Op::join(coefficients, ", ") << ")";
             return ss.str();
         }
 
+        std::vector<std::string> parameters = Op::split(term->parameters(), " ");
+        for (std::size_t i = 0; i < parameters.size(); ++i)
+            if (Op::isNumeric(parameters.at(i)) and not Op::isFinite(Op::toScalar(parameters.at(i))))
+                parameters.at(i) = toString(Op::toScalar(parameters.at(i)));
         std::ostringstream ss;
-        ss << "new " << term->className() << "(" << literal(term->getName()) << ", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+        ss << "new " << term->className() << "(" << literal(term->getName()) << ", " << Op::join(parameters, ", ")
+           << ")";
         return ss.str();
     }
 
-- 
2.43.0


From ec733929507f0bb19758abfbe051334169fabdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 13/39] fix: heights of Discrete terms are missing in exported
 Java code

---
 src/imex/JavaExporter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index cd8ab4b..b56ac28 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -188,6 +188,8 @@ namespace fuzzylite {
             std::vector<std::string> values;
             for (std::size_t i = 0; i < xy.size(); ++i)
                 values.push_back(toString(xy.at(i)));
+            if (not Op::isEq(discrete->getHeight(), 1.0))
+                values.push_back(toString(discrete->getHeight()));
             std::ostringstream ss;
             ss << term->className() << ".create(" << literal(term->getName()) << ", " << Op::join(values, ", ") << ")";
             return ss.str();
-- 
2.43.0


From d6acc00b38ebbd01de4a770747da971a0de1ef3f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 14/39] fix: importing from FLL leaks or dereferences null for
 invalid activation methods and defuzzifiers

---
 src/imex/FllImporter.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/imex/FllImporter.cpp b/src/imex/FllImporter.cpp
index efbb374..cd76e4f 100644
--- a/src/imex/FllImporter.cpp
+++ b/src/imex/FllImporter.cpp
@@ -278,7 +278,9 @@ namespace fuzzylite {
         if (name == "none")
             return FactoryManager::instance()->activation()->constructObject("");
         std::vector<std::string> tokens = Op::split(name, " ");
-        Activation* result = FactoryManager::instance()->activation()->constructObject(tokens.front());
+        FL_unique_ptr<Activation> result(FactoryManager::instance()->activation()->constructObject(tokens.front()));
+        if (not result.get())
+            return fl::null;
 
         std::ostringstream parameters;
         for (std::size_t i = 1; i < tokens.size(); ++i) {
@@ -287,7 +289,7 @@ namespace fuzzylite {
                 parameters << " ";
         }
         result->configure(parameters.str());
-        return result;
+        return result.release();
     }
 
     Defuzzifier* FllImporter::parseDefuzzifier(const std::string& text) const {
@@ -295,12 +297,12 @@ namespace fuzzylite {
         std::string name = parameters.at(0);
         if (name == "none")
             return FactoryManager::instance()->defuzzifier()->constructObject("");
-        Defuzzifier* defuzzifier = FactoryManager::instance()->defuzzifier()->constructObject(name);
+        FL_unique_ptr<Defuzzifier> defuzzifier(FactoryManager::instance()->defuzzifier()->constructObject(name));
         if (parameters.size() > 1) {
             std::string parameter(parameters.at(1));
-            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier)) {
+            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier.get())) {
                 integralDefuzzifier->setResolution((int)Op::toScalar(parameter));
-            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier)) {
+            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier.get())) {
                 WeightedDefuzzifier::Type type = WeightedDefuzzifier::Automatic;
                 if (parameter == "Automatic")
                     type = WeightedDefuzzifier::Automatic;
@@ -315,7 +317,7 @@ namespace fuzzylite {
                 weightedDefuzzifier->setType(type);
             }
         }
-        return defuzzifier;
+        return defuzzifier.release();
     }
 
     std::pair<scalar, scalar> FllImporter::parseRange(const std::string& text) const {
-- 
2.43.0


From 73669115c2dcb275c44f751655724712f8b758dc Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 15/39] fix: configuring an engine leaks operators when the
 name of another one is not registered

---
 src/Engine.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 018c669..6079bf1 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -134,20 +134,20 @@ namespace fuzzylite {
         DefuzzifierFactory* defuzzFactory = FactoryManager::instance()->defuzzifier();
         ActivationFactory* activationFactory = FactoryManager::instance()->activation();
 
-        TNorm* conjunctionObject = tnormFactory->constructObject(conjunction);
-        SNorm* disjunctionObject = snormFactory->constructObject(disjunction);
-        TNorm* implicationObject = tnormFactory->constructObject(implication);
-        SNorm* aggregationObject = snormFactory->constructObject(aggregation);
-        Defuzzifier* defuzzifierObject = defuzzFactory->constructObject(defuzzifier);
-        Activation* activationObject = activationFactory->constructObject(activation);
+        FL_unique_ptr<TNorm> conjunctionObject(tnormFactory->constructObject(conjunction));
+        FL_unique_ptr<SNorm> disjunctionObject(snormFactory->constructObject(disjunction));
+        FL_unique_ptr<TNorm> implicationObject(tnormFactory->constructObject(implication));
+        FL_unique_ptr<SNorm> aggregationObject(snormFactory->constructObject(aggregation));
+        FL_unique_ptr<Defuzzifier> defuzzifierObject(defuzzFactory->constructObject(defuzzifier));
+        FL_unique_ptr<Activation> activationObject(activationFactory->constructObject(activation));
 
         configure(
-            conjunctionObject,
-            disjunctionObject,
-            implicationObject,
-            aggregationObject,
-            defuzzifierObject,
-            activationObject
+            conjunctionObject.release(),
+            disjunctionObject.release(),
+            implicationObject.release(),
+            aggregationObject.release(),
+            defuzzifierObject.release(),
+            activationObject.release()
         );
     }
 
-- 
2.43.0


From 17f583706e619a34dc79bad8bfb8e7c742e842cd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 16/39] fix: importing from FIS dereferences null or fails with
 std::out_of_range for malformed properties, terms and rules

---
 src/imex/FisImporter.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 8c1141b..da35fee 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -100,7 +100,13 @@ namespace fuzzylite {
         std::getline(reader, line);  // ignore first line [System]
         while (std::getline(reader, line)) {
             std::vector<std::string> keyValue = Op::split(line, "=");
-
+            if (keyValue.empty())
+                throw Exception(
+                    "[syntax error] expected a property of type "
+                    "'key=value', but found <"
+                        + line + ">",
+                    FL_AT
+                );
             std::string key = Op::trim(keyValue.at(0));
             std::string value;
             for (std::size_t i = 1; i < keyValue.size(); ++i)
@@ -237,6 +243,13 @@ namespace fuzzylite {
 
             std::vector<std::string> inputs = Op::split(inputsAndRest.at(0), " ");
             std::vector<std::string> outputs = Op::split(outputsAndRest.at(0), " ");
+            if (outputs.empty())
+                throw Exception(
+                    "[syntax error] expected rule to match pattern "
+                    "<'i '+, 'o '+ (w) : '1|2'>, but found instead <"
+                        + line + ">",
+                    FL_AT
+                );
             std::string weightInParenthesis = outputs.at(outputs.size() - 1);
             outputs.erase(outputs.begin() + outputs.size() - 1);
             std::string connector = Op::trim(outputsAndRest.at(1));
@@ -558,6 +571,8 @@ namespace fuzzylite {
 
         FL_unique_ptr<Term> term;
         term.reset(FactoryManager::instance()->term()->constructObject(flClass));
+        if (not term.get())
+            throw Exception("[syntax error] expected the class of term <" + name + ">, but found none", FL_AT);
         term->updateReference(engine);
         term->setName(Op::validName(name));
         std::string separator;
-- 
2.43.0


From 30433282e9ed56e1bdb6bf92d581f739bec8c249 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 17/39] fix: importing from FCL fails with undefined behaviour
 or std::out_of_range for malformed default values and rules

---
 src/imex/FclImporter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 55503f8..7d4631f 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -291,6 +291,8 @@ namespace fuzzylite {
                 std::size_t ruleStart = line.find_first_of(':');
                 if (ruleStart == std::string::npos)
                     ruleStart = 4;  // "RULE".size()
+                if (ruleStart >= line.size())
+                    throw Exception("[syntax error] expected a rule in line: " + line, FL_AT);
                 std::string ruleText = line.substr(ruleStart + 1);
                 ruleText = Op::trim(ruleText);
                 Rule* rule = new Rule(ruleText);
@@ -479,6 +481,11 @@ namespace fuzzylite {
         }
 
         std::vector<std::string> values = Op::split(token.at(1), "|");
+        if (values.empty()) {
+            std::ostringstream ex;
+            ex << "[syntax error] expected a default value in line: " << line;
+            throw Exception(ex.str(), FL_AT);
+        }
 
         std::string defaultValue = values.front();
         std::string nc;
-- 
2.43.0


From 3aff244464cb7d1c8120dc5a4957251ab16bce56 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 18/39] fix: fewer values than requested are exported to
 datasets when the root of the values is inexact

---
 src/imex/FldExporter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index f1d20c3..c2b6880 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -209,8 +209,8 @@ namespace fuzzylite {
         }
 
         int resolution;
-        if (scope == AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / engine->numberOfInputVariables()));
+        if (scope == AllVariables)  // the n-th root of a perfect power can be slightly less than the integer
+            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / engine->numberOfInputVariables()) + 1e-9);
         else  // if (scope == EachVariable)
             resolution = values - 1;
 
-- 
2.43.0


From dfe28a617a2f4fe2bd67917d81ad9ed51195d2df Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 19/39] fix: quotes and backslashes are not escaped in exported
 R scripts

---
 src/imex/RScriptExporter.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/imex/RScriptExporter.cpp b/src/imex/RScriptExporter.cpp
index eca605f..298104d 100644
--- a/src/imex/RScriptExporter.cpp
+++ b/src/imex/RScriptExporter.cpp
@@ -26,6 +26,19 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    namespace {
+
+        std::string literal(const std::string& text) {
+            std::string result = "\"";
+            for (std::size_t i = 0; i < text.size(); ++i) {
+                if (text.at(i) == '\\' or text.at(i) == '"')
+                    result += '\\';
+                result += text.at(i);
+            }
+            return result + "\"";
+        }
+    }
+
     RScriptExporter::RScriptExporter() :
         Exporter(),
         _minimumColor("yellow"),
@@ -153,7 +166,7 @@ namespace fuzzylite {
     ) const {
         writeScriptHeader(writer, engine);
 
-        writer << "engine.fldFile = \"" << dfPath << "\"\n";
+        writer << "engine.fldFile = " << literal(dfPath) << "\n";
         writer << "if (require(data.table)) {\n"
                << "    engine.df = data.table::fread(engine.fldFile, sep=\"auto\", header=\"auto\")\n"
                << "} else {\n"
@@ -212,10 +225,10 @@ namespace fuzzylite {
         writer << "#Code automatically generated with " << fuzzylite::library() << ".\n\n"
                << "library(ggplot2);\n"
                << "\n";
-        writer << "engine.name = \"" << engine->getName() << "\"\n";
+        writer << "engine.name = " << literal(engine->getName()) << "\n";
         if (not engine->getDescription().empty())
-            writer << "engine.description = \"" << engine->getDescription() << "\"\n";
-        writer << "engine.fll = \"" << FllExporter().toString(engine) << "\"\n\n";
+            writer << "engine.description = " << literal(engine->getDescription()) << "\n";
+        writer << "engine.fll = " << literal(FllExporter().toString(engine)) << "\n\n";
     }
 
     void RScriptExporter::writeScriptPlots(
-- 
2.43.0


From 9256cc746746443ac78477400c7bfad3bb5d5a1f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 20/39] fix: copies of an engine enable disabled rules and
 reset the weights of rules

---
 src/Engine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 6079bf1..48e91c6 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -99,6 +99,12 @@ namespace fuzzylite {
             } catch (...) {
                 // ignore
             }
+            // loading sets these from the text of the rules
+            for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
+                const Rule* rule = other._ruleBlocks.at(i)->getRule(r);
+                ruleBlock->getRule(r)->setEnabled(rule->isEnabled());
+                ruleBlock->getRule(r)->setWeight(rule->getWeight());
+            }
             _ruleBlocks.push_back(ruleBlock);
         }
     }
-- 
2.43.0


From f5f9182aa720485dec0f2f90a0f16056729b6844 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 21/39] fix: fuzzy outputs of copies of engines and variables
 refer to the terms and implications of the original

---
 src/Engine.cpp                  | 9 +++++++++
 src/variable/OutputVariable.cpp | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 48e91c6..b5be5f1 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -106,6 +106,15 @@ namespace fuzzylite {
                 ruleBlock->getRule(r)->setWeight(rule->getWeight());
             }
             _ruleBlocks.push_back(ruleBlock);
+
+            // the fuzzy outputs of the copy are activated with the copies of the implications
+            const TNorm* implication = other._ruleBlocks.at(i)->getImplication();
+            for (std::size_t o = 0; implication and o < _outputVariables.size(); ++o) {
+                std::vector<Activated>& activatedTerms = _outputVariables.at(o)->fuzzyOutput()->terms();
+                for (std::size_t t = 0; t < activatedTerms.size(); ++t)
+                    if (activatedTerms.at(t).getImplication() == implication)
+                        activatedTerms.at(t).setImplication(ruleBlock->getImplication());
+            }
         }
     }
 
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index b8c327c..e35b495 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -49,6 +49,12 @@ namespace fuzzylite {
 
     void OutputVariable::copyFrom(const OutputVariable& other) {
         _fuzzyOutput.reset(other._fuzzyOutput->clone());
+        // the activated terms of the copy are the copies of the terms
+        std::vector<Activated>& activatedTerms = _fuzzyOutput->terms();
+        for (std::size_t i = 0; i < activatedTerms.size(); ++i)
+            for (std::size_t t = 0; t < other.numberOfTerms(); ++t)
+                if (activatedTerms.at(i).getTerm() == other.getTerm(t))
+                    activatedTerms.at(i).setTerm(getTerm(t));
         if (other._defuzzifier.get())
             _defuzzifier.reset(other._defuzzifier->clone());
         _previousValue = other._previousValue;
-- 
2.43.0


From f68ebb1d5aff235c8339cbbd3e5351e6b9250b0d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 22/39] fix: move assignment of variables leaks the terms of
 the assigned variable

---
 fuzzylite/variable/Variable.h |  6 ++++--
 src/variable/Variable.cpp     | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/fuzzylite/variable/Variable.h b/fuzzylite/variable/Variable.h
index 903acfd..539244a 100644
--- a/fuzzylite/variable/Variable.h
+++ b/fuzzylite/variable/Variable.h
@@ -66,8 +66,10 @@ namespace fuzzylite {
         );
         Variable(const Variable& other);
         Variable& operator=(const Variable& other);
-        //@todo: implement move assign without leaking memory
-        FL_DEFAULT_MOVE(Variable)
+#ifndef FL_CPP98
+        Variable(Variable&& other) = default;
+        Variable& operator=(Variable&& other);
+#endif
         virtual ~Variable();
 
         /**
diff --git a/src/variable/Variable.cpp b/src/variable/Variable.cpp
index c4c8105..f59eb1f 100644
--- a/src/variable/Variable.cpp
+++ b/src/variable/Variable.cpp
@@ -18,6 +18,7 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #include "fuzzylite/variable/Variable.h"
 
 #include <queue>
+#include <utility>
 
 #include "fuzzylite/imex/FllExporter.h"
 #include "fuzzylite/norm/Norm.h"
@@ -52,6 +53,26 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Variable& Variable::operator=(Variable&& other) {
+        if (this != &other) {
+            for (std::size_t i = 0; i < _terms.size(); ++i)
+                delete _terms.at(i);
+            _terms = std::move(other._terms);
+            other._terms.clear();
+
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _value = other._value;
+            _minimum = other._minimum;
+            _maximum = other._maximum;
+            _enabled = other._enabled;
+            _lockValueInRange = other._lockValueInRange;
+        }
+        return *this;
+    }
+#endif
+
     void Variable::copyFrom(const Variable& other) {
         _name = other._name;
         _description = other._description;
-- 
2.43.0


From 227111464f2dea51ffc3d185291cbdf7a7e5441c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 23/39] fix: move assignment of rule blocks leaks the rules of
 the assigned rule block

---
 fuzzylite/rule/RuleBlock.h |  5 ++++-
 src/rule/RuleBlock.cpp     | 22 ++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/rule/RuleBlock.h b/fuzzylite/rule/RuleBlock.h
index 43c3b27..cc2a727 100644
--- a/fuzzylite/rule/RuleBlock.h
+++ b/fuzzylite/rule/RuleBlock.h
@@ -68,7 +68,10 @@ namespace fuzzylite {
         RuleBlock(const RuleBlock& other);
         RuleBlock& operator=(const RuleBlock& other);
         virtual ~RuleBlock();
-        FL_DEFAULT_MOVE(RuleBlock)
+#ifndef FL_CPP98
+        RuleBlock(RuleBlock&& other) = default;
+        RuleBlock& operator=(RuleBlock&& other);
+#endif
 
         /**
         Enables the rule block
diff --git a/src/rule/RuleBlock.cpp b/src/rule/RuleBlock.cpp
index b947192..253fceb 100644
--- a/src/rule/RuleBlock.cpp
+++ b/src/rule/RuleBlock.cpp
@@ -17,6 +17,8 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 #include "fuzzylite/rule/RuleBlock.h"
 
+#include <utility>
+
 #include "fuzzylite/Operation.h"
 #include "fuzzylite/activation/General.h"
 #include "fuzzylite/imex/FllExporter.h"
@@ -64,6 +66,26 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    RuleBlock& RuleBlock::operator=(RuleBlock&& other) {
+        if (this != &other) {
+            for (std::size_t i = 0; i < _rules.size(); ++i)
+                delete _rules.at(i);
+            _rules = std::move(other._rules);
+            other._rules.clear();
+
+            _enabled = other._enabled;
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _activation = std::move(other._activation);
+            _conjunction = std::move(other._conjunction);
+            _disjunction = std::move(other._disjunction);
+            _implication = std::move(other._implication);
+        }
+        return *this;
+    }
+#endif
+
     void RuleBlock::copyFrom(const RuleBlock& source) {
         _enabled = source._enabled;
         _name = source._name;
-- 
2.43.0


From c5199785801dcc82878ff1fd2c0f203595689a35 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 24/39] fix: moved engines leak the components of the assigned
 engine and leave terms referring to the engine moved from

---
 fuzzylite/Engine.h |  5 ++++-
 src/Engine.cpp     | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/Engine.h b/fuzzylite/Engine.h
index 3997c1a..14e0fe9 100644
--- a/fuzzylite/Engine.h
+++ b/fuzzylite/Engine.h
@@ -70,7 +70,10 @@ namespace fuzzylite {
         Engine(const Engine& other);
         Engine& operator=(const Engine& other);
         virtual ~Engine();
-        FL_DEFAULT_MOVE(Engine)
+#ifndef FL_CPP98
+        Engine(Engine&& other);
+        Engine& operator=(Engine&& other);
+#endif
 
         /**
           Configures the engine with the given operators
diff --git a/src/Engine.cpp b/src/Engine.cpp
index b5be5f1..16dfeb4 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -17,6 +17,8 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 #include "fuzzylite/Engine.h"
 
+#include <utility>
+
 #include "fuzzylite/activation/General.h"
 #include "fuzzylite/defuzzifier/WeightedAverage.h"
 #include "fuzzylite/defuzzifier/WeightedSum.h"
@@ -82,6 +84,39 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Engine::Engine(Engine&& other) :
+        _name(std::move(other._name)),
+        _description(std::move(other._description)),
+        _inputVariables(std::move(other._inputVariables)),
+        _outputVariables(std::move(other._outputVariables)),
+        _ruleBlocks(std::move(other._ruleBlocks)) {
+        updateReferences();
+    }
+
+    Engine& Engine::operator=(Engine&& other) {
+        if (this != &other) {
+            for (std::size_t i = 0; i < _ruleBlocks.size(); ++i)
+                delete _ruleBlocks.at(i);
+            for (std::size_t i = 0; i < _outputVariables.size(); ++i)
+                delete _outputVariables.at(i);
+            for (std::size_t i = 0; i < _inputVariables.size(); ++i)
+                delete _inputVariables.at(i);
+            _ruleBlocks = std::move(other._ruleBlocks);
+            _outputVariables = std::move(other._outputVariables);
+            _inputVariables = std::move(other._inputVariables);
+            other._ruleBlocks.clear();
+            other._outputVariables.clear();
+            other._inputVariables.clear();
+
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            updateReferences();
+        }
+        return *this;
+    }
+#endif
+
     void Engine::copyFrom(const Engine& other) {
         _name = other._name;
         _description = other._description;
-- 
2.43.0


From caa824d8870d1761cb941e873b5ba3146e7d9403 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 25/39] fix: move assignment of cloning factories leaks the
 objects of the assigned factory

---
 fuzzylite/factory/CloningFactory.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 962e6e5..54c82f8 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -20,6 +20,7 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 #include <map>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "fuzzylite/fuzzylite.h"
@@ -55,7 +56,10 @@ namespace fuzzylite {
         CloningFactory(const CloningFactory& other);
         CloningFactory& operator=(const CloningFactory& other);
         virtual ~CloningFactory();
-        FL_DEFAULT_MOVE(CloningFactory)
+#ifndef FL_CPP98
+        CloningFactory(CloningFactory&& other) = default;
+        CloningFactory& operator=(CloningFactory&& other);
+#endif
 
         /**
           Returns the name of the factory
@@ -145,6 +149,19 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    template <typename T>
+    inline CloningFactory<T>& CloningFactory<T>::operator=(CloningFactory&& other) {
+        if (this != &other) {
+            CloningFactory::clear();
+            this->_objects = std::move(other._objects);
+            other._objects.clear();
+            this->_name = std::move(other._name);
+        }
+        return *this;
+    }
+#endif
+
     template <typename T>
     inline CloningFactory<T>::~CloningFactory() {
         CloningFactory::clear();
-- 
2.43.0


From c97e2657dd3693606e6e8f52025632a32f3e6036 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 26/39] fix: registering an object under a registered name
 leaks the object it replaces

---
 fuzzylite/factory/CloningFactory.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 54c82f8..c572229 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -174,7 +174,10 @@ namespace fuzzylite {
 
     template <typename T>
     inline void CloningFactory<T>::registerObject(const std::string& key, T object) {
-        this->_objects[key] = object;
+        T& registered = this->_objects[key];
+        if (registered != object)
+            delete registered;
+        registered = object;
     }
 
     template <typename T>
-- 
2.43.0


From beb89ffe4628c4bf76fd0a583eb8555820bab597 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 27/39] fix: engines report being ready when rules whose
 operators are not surrounded by single spaces lack the operators

---
 src/Engine.cpp | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 16dfeb4..69b90dd 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -17,6 +17,7 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 #include "fuzzylite/Engine.h"
 
+#include <algorithm>
 #include <utility>
 
 #include "fuzzylite/activation/General.h"
@@ -26,6 +27,7 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #include "fuzzylite/factory/FactoryManager.h"
 #include "fuzzylite/imex/FllExporter.h"
 #include "fuzzylite/norm/t/AlgebraicProduct.h"
+#include "fuzzylite/rule/Antecedent.h"
 #include "fuzzylite/rule/Consequent.h"
 #include "fuzzylite/rule/Expression.h"
 #include "fuzzylite/rule/Rule.h"
@@ -236,6 +238,34 @@ namespace fuzzylite {
             delete activation;
     }
 
+    // Whether the antecedent of the rule joins propositions with the given operator
+    static bool requiresOperator(const Rule* rule, const std::string& keyword) {
+        if (not rule->isLoaded()) {
+            std::string text = rule->getText();
+            std::replace(text.begin(), text.end(), '(', ' ');
+            std::replace(text.begin(), text.end(), ')', ' ');
+            std::istringstream tokenizer(text);
+            std::string token;
+            while (tokenizer >> token and token != Rule::thenKeyword())
+                if (token == keyword)
+                    return true;
+            return false;
+        }
+        std::vector<const Expression*> expressions(1, rule->getAntecedent()->getExpression());
+        while (not expressions.empty()) {
+            const Expression* expression = expressions.back();
+            expressions.pop_back();
+            if (not expression or expression->type() != Expression::Operator)
+                continue;
+            const Operator* fuzzyOperator = static_cast<const Operator*>(expression);
+            if (fuzzyOperator->name == keyword)
+                return true;
+            expressions.push_back(fuzzyOperator->left);
+            expressions.push_back(fuzzyOperator->right);
+        }
+        return false;
+    }
+
     bool Engine::isReady(std::string* status) const {
         std::ostringstream ss;
         if (inputVariables().empty())
@@ -287,12 +317,9 @@ namespace fuzzylite {
                         ss << "- Rule block " << (i + 1) << " <" << ruleblock->getName()
                            << "> has a fl::null rule at index <" << r << ">\n";
                     } else {
-                        std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
-                        std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
-                        std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
-                        if (andIndex != std::string::npos and andIndex < thenIndex)
+                        if (requiresOperator(rule, Rule::andKeyword()))
                             ++requiresConjunction;
-                        if (orIndex != std::string::npos and orIndex < thenIndex)
+                        if (requiresOperator(rule, Rule::orKeyword()))
                             ++requiresDisjunction;
                         if (rule->isLoaded()) {
                             Consequent* consequent = rule->getConsequent();
-- 
2.43.0


From 6c1fe70b9079f9e9f433e9f9437eec95399388fa Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 28/39] fix: removing an activated term returns a reference to
 the term that takes its place

---
 fuzzylite/term/Aggregated.h | 2 +-
 src/term/Aggregated.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fuzzylite/term/Aggregated.h b/fuzzylite/term/Aggregated.h
index d03322e..ce73d68 100644
--- a/fuzzylite/term/Aggregated.h
+++ b/fuzzylite/term/Aggregated.h
@@ -199,7 +199,7 @@ namespace fuzzylite {
           @param index is the index of the term
           @return the removed term
          */
-        virtual const Activated& removeTerm(std::size_t index);
+        virtual Activated removeTerm(std::size_t index);
         /**
           Returns the number of activated terms
           @return the number of activated terms
diff --git a/src/term/Aggregated.cpp b/src/term/Aggregated.cpp
index ac3f1ea..3713f33 100644
--- a/src/term/Aggregated.cpp
+++ b/src/term/Aggregated.cpp
@@ -237,8 +237,8 @@ namespace fuzzylite {
         FL_DBG("Aggregating " << _terms.back().toString());
     }
 
-    const Activated& Aggregated::removeTerm(std::size_t index) {
-        const Activated& term = _terms.at(index);
+    Activated Aggregated::removeTerm(std::size_t index) {
+        const Activated term = _terms.at(index);
         _terms.erase(_terms.begin() + index);
         return term;
     }
-- 
2.43.0


From ebb37051f4a460c75a9f046fa73950a235027f14 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 29/39] fix: replace only the first occurrence without
 truncating the text, and nothing when looking for an empty text

---
 fuzzylite/Operation.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 94f869b..85d6578 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -844,15 +844,17 @@ namespace fuzzylite {
     inline std::string Operation::findReplace(
         const std::string& str, const std::string& find, const std::string& replace, bool replaceAll
     ) {
+        if (find.empty())
+            return str;
         std::ostringstream result;
         std::size_t fromIndex = 0, nextIndex;
-        do {
-            nextIndex = str.find(find, fromIndex);
-            result << str.substr(fromIndex, nextIndex - fromIndex);
-            if (nextIndex != std::string::npos)
-                result << replace;
+        while ((nextIndex = str.find(find, fromIndex)) != std::string::npos) {
+            result << str.substr(fromIndex, nextIndex - fromIndex) << replace;
             fromIndex = nextIndex + find.size();
-        } while (replaceAll and nextIndex != std::string::npos);
+            if (not replaceAll)
+                break;
+        }
+        result << str.substr(fromIndex);
         return result.str();
     }
 
-- 
2.43.0


From 1dbac4ab11a5ed09feffca7e8f8d7497e6a21023 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 30/39] fix: names without valid characters are not made empty

---
 fuzzylite/Operation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 85d6578..70c13d8 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -838,7 +838,8 @@ namespace fuzzylite {
             if (c == '_' or c == '.' or isalnum(c))
                 ss << c;
         }
-        return ss.str();
+        const std::string result = ss.str();
+        return result.empty() ? "_" : result;
     }
 
     inline std::string Operation::findReplace(
-- 
2.43.0


From ad93262fb368507944995c99a1e74f21e8728877 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 31/39] fix: benchmarks prepare fewer values than requested
 when the root of the values is inexact

---
 src/Benchmark.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d8f8c26..db708e6 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -91,8 +91,8 @@ namespace fuzzylite {
         if (not _engine)
             throw Exception("[benchmark error] engine not set before preparing for values and scope", FL_AT);
         int resolution;
-        if (scope == FldExporter::AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / _engine->numberOfInputVariables()));
+        if (scope == FldExporter::AllVariables)  // the n-th root of a perfect power can be slightly less than the integer
+            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / _engine->numberOfInputVariables()) + 1e-9);
         else  // if (scope == EachVariable)
             resolution = values - 1;
 
-- 
2.43.0


From c31db5ff0487e6170294243150b505b07afa5765 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 32/39] fix: times of the runs in the results of benchmarks are
 not converted to the unit of time

---
 src/Benchmark.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index db708e6..fca46cc 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -414,7 +414,10 @@ namespace fuzzylite {
         if (includeTimes) {
             for (std::size_t i = 0; i < time.size(); ++i) {
                 result.push_back(
-                    Result("t" + Op::str(i + 1), Op::str(time.at(i), unit == NanoSeconds ? 0 : fuzzylite::decimals()))
+                    Result(
+                        "t" + Op::str(i + 1),
+                        Op::str(convert(time.at(i), NanoSeconds, unit), unit == NanoSeconds ? 0 : fuzzylite::decimals())
+                    )
                 );
             }
         }
-- 
2.43.0


From 668c4c87366a418bf95a819af01c999ffad06f50 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 33/39] fix: errors of benchmarks are computed out of range
 when only some rows have expected outputs

---
 src/Benchmark.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index fca46cc..d21d5be 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -198,11 +198,13 @@ namespace fuzzylite {
     }
 
     bool Benchmark::canComputeErrors() const {
-        return not(
-            _engine == fl::null or _expected.empty() or _obtained.empty() or _expected.size() != _obtained.size()
-            or _expected.front().size() != _obtained.front().size()
-            or _expected.front().size() != _engine->variables().size()
-        );
+        if (_engine == fl::null or _expected.empty() or _obtained.empty() or _expected.size() != _obtained.size())
+            return false;
+        const std::size_t columns = _engine->variables().size();
+        for (std::size_t i = 0; i < _expected.size(); ++i)
+            if (_expected.at(i).size() != columns or _obtained.at(i).size() != columns)
+                return false;
+        return true;
     }
 
     scalar Benchmark::meanSquaredError() const {
-- 
2.43.0


From f34c9665bdaf941e90bf5b84c4f4744c994b2ef0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 34/39] fix: the exit status of the command line is always
 successful

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index d93fa6a..c63abda 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -34,7 +34,7 @@ int main(int argc, const char* argv[]) {
     fl::fuzzylite::setDebugging(false);
 
     try {
-        fl::Console::main(argc, argv);
+        return fl::Console::main(argc, argv);
     } catch (std::exception& ex) {
         std::cout << ex.what() << "\nBACKTRACE:\n" << fl::Exception::btCallStack() << std::endl;
         return EXIT_FAILURE;
-- 
2.43.0


From 4d52ee091672150d20255a2fc38acf3aaf1932b0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 35/39] fix: restarting the engine in the interactive console
 does not discard the current inputs

---
 src/Console.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index 33b8d3c..931183d 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -397,8 +397,10 @@ namespace fuzzylite {
                 case 'r':
                 case 'R':
                     engine->restart();
-                    buffer << "#[Restart]";
-                    continue;  // fall through
+                    inputValues.clear();
+                    buffer << "#[Restart]\n>";
+                    inputValue.str("");
+                    break;
                 case 'd':
                 case 'D':
                     inputValues.clear();
-- 
2.43.0


From fa93f04651a161aeb23da847e783534f7f2dc01b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 36/39] fix: outputs are defuzzified twice in the interactive
 console

---
 src/Console.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index 931183d..4512447 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -431,7 +431,6 @@ namespace fuzzylite {
                         std::vector<scalar> outputValues;
                         for (std::size_t i = 0; i < engine->outputVariables().size(); ++i) {
                             OutputVariable* outputVariable = engine->outputVariables().at(i);
-                            outputVariable->defuzzify();
                             outputValues.push_back(outputVariable->getValue());
                         }
                         buffer << Op::join(outputValues, space) << "\n>";
-- 
2.43.0


From 84fada87f246d377f47a9558966f60a14d018e06 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 37/39] fix: membership of discrete terms reads beyond the
 pairs when the first or last coordinate is nan

---
 src/term/Discrete.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/term/Discrete.cpp b/src/term/Discrete.cpp
index 2017973..52ff361 100644
--- a/src/term/Discrete.cpp
+++ b/src/term/Discrete.cpp
@@ -65,10 +65,12 @@ namespace fuzzylite {
         Bound lowerBound(std::lower_bound(_xy.begin(), _xy.end(), value, compare));
 
         // if the lower bound is equal to x
-        if (Op::isEq(x, lowerBound->first))
+        if (lowerBound != _xy.end() and Op::isEq(x, lowerBound->first))
             return Term::_height * lowerBound->second;
         // find the upper bound starting from a copy of lowerBound
         const Bound upperBound(std::upper_bound(_xy.begin(), _xy.end(), value, compare));
+        if (lowerBound == _xy.begin() or upperBound == _xy.end())  // the first or last coordinate is nan
+            return fl::nan;
         --lowerBound;  // One arithmetic
         return Term::_height
                * Op::scale(x, lowerBound->first, upperBound->first, lowerBound->second, upperBound->second);
-- 
2.43.0


From c04b95a13594349c1551a372e67c95dd48a785b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 38/39] fix: the importer of FIS keeps the weights of the rules
 as they are written, regardless of the decimals in the settings

---
 src/imex/FisImporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index da35fee..bdddb6b 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -332,7 +332,7 @@ namespace fuzzylite {
 
             scalar weight = Op::toScalar(ss.str());
             if (not Op::isEq(weight, 1.0))
-                ruleText << " " << Rule::withKeyword() << " " << Op::str(weight);
+                ruleText << " " << Rule::withKeyword() << " " << ss.str();
             Rule* rule = new Rule(ruleText.str());
             try {
                 rule->load(engine);
-- 
2.43.0


From ba115a47119872945c76da5a49557f5ff8954d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 39/39] fix: the importer of FIS keeps the equal signs in the
 names of engines

---
 src/imex/FisImporter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index bdddb6b..59e97a5 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -109,9 +109,9 @@ namespace fuzzylite {
                 );
             std::string key = Op::trim(keyValue.at(0));
             std::string value;
-            for (std::size_t i = 1; i < keyValue.size(); ++i)
-                value += keyValue.at(i);
-            value = Op::trim(value);
+            const std::size_t separator = line.find('=');
+            if (separator != std::string::npos)
+                value = Op::trim(line.substr(separator + 1));
             if (key == "Name")
                 engine->setName(value);
             else if (key == "AndMethod")
-- 
2.43.0

