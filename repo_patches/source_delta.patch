From 62c3c1742a5b09578d6f3f97108572eb2cb79095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 01/40] fix: bind the Python ExtensionalDifference connector to
 its own value

---
 Narsese/src/Connector.cpp | 54 +++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 6ce8f9f..5155dce 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -1,27 +1,27 @@
-#include "../include/Connector.h"
-
-
-using namespace CONNECTOR;
-
-namespace CONNECTOR
-{
-    void pybind_connnector(py::module &m)
-    {
-        py::enum_<CONNECTOR::Connector>(m, "Connector")
-            .value("Conjunction", CONNECTOR::Connector::Conjunction, "&&")
-            .value("Disjunction", CONNECTOR::Connector::Disjunction, "||")
-            .value("Product", CONNECTOR::Connector::Product, "*")
-            .value("ParallelEvents", CONNECTOR::Connector::ParallelEvents, "&|")
-            .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
-            .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
-            .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ParallelEvents, "-")
-            .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
-            .value("Negation", CONNECTOR::Connector::Negation, "--")
-            .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-            .value("ExtensionalSet", CONNECTOR::Connector::ExtensionalSet, "{")
-            .value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\")
-            .value("ExtensionalImage", CONNECTOR::Connector::ExtensionalImage, "/")
-            .value("List", CONNECTOR::Connector::List, "#");
-    }
-} // namespace CONNECTOR
+#include "../include/Connector.h"
+
+
+using namespace CONNECTOR;
+
+namespace CONNECTOR
+{
+    void pybind_connnector(py::module &m)
+    {
+        py::enum_<CONNECTOR::Connector>(m, "Connector")
+            .value("Conjunction", CONNECTOR::Connector::Conjunction, "&&")
+            .value("Disjunction", CONNECTOR::Connector::Disjunction, "||")
+            .value("Product", CONNECTOR::Connector::Product, "*")
+            .value("ParallelEvents", CONNECTOR::Connector::ParallelEvents, "&|")
+            .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
+            .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
+            .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
+            .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
+            .value("Negation", CONNECTOR::Connector::Negation, "--")
+            .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
+            .value("ExtensionalSet", CONNECTOR::Connector::ExtensionalSet, "{")
+            .value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\")
+            .value("ExtensionalImage", CONNECTOR::Connector::ExtensionalImage, "/")
+            .value("List", CONNECTOR::Connector::List, "#");
+    }
+} // namespace CONNECTOR
-- 
2.43.0


From 79449491468d1764b25decb93988af6739a0ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 02/40] fix: look operations up by the name they are stored
 under

---
 Narsese/Parser/NarseseParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a90e80c..22e8b84 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -458,7 +458,7 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 	auto &str = *((std::string *)args[0]);
 	auto str_op = "^" + str;
 	pTerm *term;
-	if (INTERPRETER::interpreter.check_by_name(str) > 0)
+	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)
 	{
 		auto key = INTERPRETER::interpreter.get_by_name(str_op);
 		term = (pTerm *)INTERPRETER::interpreter.get_object(key);
-- 
2.43.0


From 75e46478527e4825eeb0f0144a344e828b63916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 03/40] fix: connect each kind of variable index to the same
 kind in the components

---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0660714..244fb92 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -21,7 +21,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
@@ -35,7 +35,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
-- 
2.43.0


From 5762277ddcadcba388e18f56f105d1761e58351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 04/40] fix: compare dependent and query variables by their own
 indices

---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 244fb92..7dd0af1 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -69,9 +69,9 @@ namespace TERM
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_query->indices[0]);
+                    return *(this->_vars_query->indices[0]) == *(other._vars_query->indices[0]);
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_dependent->indices[0]);
+                    return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
-- 
2.43.0


From 74937e0faf43808fbc7115795e39cad5724742e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 05/40] fix: order statements and compounds lexicographically

---
 Narsese/include/Term.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 7dd0af1..5f9bda4 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -151,11 +151,13 @@ namespace TERM
 
             if (*(term1.subject) < *(term2.subject))
                 return true;
+            if (*(term2.subject) < *(term1.subject))
+                return false;
             if (*(term1.predicate) < *(term2.predicate))
                 return true;
-            if (term1.copula < term2.copula)
-                return true;
-            return false;
+            if (*(term2.predicate) < *(term1.predicate))
+                return false;
+            return term1.copula < term2.copula;
         }
         else if (this->is_compound())
         {
@@ -171,6 +173,8 @@ namespace TERM
                 auto &term2 = **it2;
                 if ((term1 < term2))
                     return true;
+                if ((term2 < term1))
+                    return false;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From 4621154443fd5ce3c1012f3630577d7d562d4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 06/40] fix: give every stamp a non-null evidential base

---
 Narsese/include/Sentence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index c8f6933..af58c0f 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -62,7 +62,7 @@ namespace SENTENCE
         Stamp(signed int t_occurrence, signed int t_creation, signed int t_put, pBase evidential_base, bool is_eternal = true) : t_occurrence(t_occurrence), t_creation(t_creation), t_put(t_put), evidential_base(evidential_base), is_eternal(is_eternal)
         {
             if (evidential_base == nullptr)
-                evidential_base = pBase(new Base());
+                this->evidential_base = pBase(new Base());
         }
 
         static pStamp create(bool is_eternal = false)
-- 
2.43.0


From 2db57215cf0bfe7f31ce34d1779ffc287a31c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 07/40] fix: share the clock and the input counter between
 translation units

---
 Global.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/Global.h b/Global.h
index ec26c8a..923683e 100755
--- a/Global.h
+++ b/Global.h
@@ -1,18 +1,18 @@
-#ifndef _GLOBAL_H
-#define _GLOBAL_H
-
-namespace GLOBAL
-{
-    static unsigned long time = 0;
-    static unsigned long _input_id = 0;
-
-    inline unsigned long get_input_id()
-    {
-        auto input_id = _input_id;
-        _input_id += 1;
-        return input_id;
-    }
-
-} // namespace GLOBAL
-
+#ifndef _GLOBAL_H
+#define _GLOBAL_H
+
+namespace GLOBAL
+{
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
+
+    inline unsigned long get_input_id()
+    {
+        auto input_id = _input_id;
+        _input_id += 1;
+        return input_id;
+    }
+
+} // namespace GLOBAL
+
 #endif // _GLOBAL_H
\ No newline at end of file
-- 
2.43.0


From 6c732deed20fd57f6b90b191b49723df01379602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 08/40] fix: destroy terms and sentences through virtual
 destructors

---
 Narsese/include/Sentence.h |    1 +
 Narsese/include/Term.h     | 1009 ++++++++++++++++++------------------
 2 files changed, 506 insertions(+), 504 deletions(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index af58c0f..7704459 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -129,6 +129,7 @@ namespace SENTENCE
             if (stamp == nullptr)
                 stamp = pStamp(new Stamp(true));
         }
+        virtual ~Sentence() = default;
 
         inline bool is_judgement() { return punct == PUNCTUATION::Judgement; }
         inline bool is_question() { return punct == PUNCTUATION::Question; }
diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 336ee18..8974960 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -1,505 +1,506 @@
-#ifndef _TERM_H
-#define _TERM_H
-
-#include "Connector.h"
-#include "Copula.h"
-#include "utils/IndexVar.h"
-#include "utils/hash.h"
-#include <algorithm>
-#include <array>
-#include <list>
-#include <memory>
-#include <string>
-#include <unordered_set>
-#include <fmt/core.h>
-#include <pybind11/pybind11.h>
-
-// #include "../utils/repr.h"
-namespace VARIABLE
-{
-    class Variable;
-}
-
-namespace COMPOUND
-{
-    class Compound;
-}
-
-namespace STATEMENT
-{
-    class Statement;
-}
-
-namespace TERM
-{
-    namespace py = pybind11;
-    
-    using CONNECTOR::Connector;
-    using COPULA::Copula;
-    // using REPR::repr;
-    using INDEXVAR::IndexVar;
-    using INDEXVAR::pIndexVar;
-    using std::string;
-    using std::unordered_set;
-    using UTILS::Hash;
-    using UTILS::hash;
-
-
-    class Terms;
-    class Term;
-    // typedef std::shared_ptr<Term> pTerm;
-    class PYBIND11_EXPORT pTerm : public std::shared_ptr<Term>
-    {
-    public:
-        void *_interpreter = nullptr;
-
-    public:
-        // using std::shared_ptr<Term>::shared_ptr;
-        pTerm() : std::shared_ptr<Term>::shared_ptr() {}
-        pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
-        // pTerm() : std::shared_ptr<Term>() {}
-
-        ~pTerm();
-
-        std::string __repr__(void *interpreter = nullptr) const;
-
-    private:
-        void _free_from_interpreter();
-        // void _free_from_interpreter() {}
-    };
-
-    typedef std::shared_ptr<Terms> pTerms;
-
-    enum PYBIND11_EXPORT TermType
-    {
-        ATOM = 0,
-        STATEMENT = 1,
-        COMPOUND = 2,
-        INTERVAL = -1,
-        OPERATION = -2,
-        VARIABLE = -3
-    };
-
-    class PYBIND11_EXPORT Term
-    {
-    public:
-        /* for statement */
-        pTerm subject;
-        pTerm predicate;
-        Copula copula = COPULA::None;
-
-        /* for compound */
-        Connector connector = CONNECTOR::None;
-        pTerms terms;
-
-        /* for all */
-        TermType type = TermType::ATOM;
-
-        bool is_var : 1 = false;
-        bool is_ivar : 1 = false;
-        bool is_dvar : 1 = false;
-        bool is_qvar : 1 = false;
-        bool has_var : 1 = false;  // Whether the term contains variable(s).
-        bool has_ivar : 1 = false; // Whether the term contains independent variable(s).
-        bool has_dvar : 1 = false; // Whether the term contains dependent variable(s).
-        bool has_qvar : 1 = false; // Whether the term contains query variable(s).
-
-        bool is_closed : 1 = true; // Whether the term is closed or open in terms of variable.
-        bool is_interval : 1 = false;
-        bool is_operation : 1 = false;
-
-        bool is_higher_order : 1 = false;
-
-        bool is_hashed : 1 = false;
-        size_t hash_value = 0;
-
-        int complexity = 1; // The complexity of the term. Read only.
-
-        pIndexVar _vars_independent = IndexVar::create();
-        pIndexVar _vars_dependent = IndexVar::create();
-        pIndexVar _vars_query = IndexVar::create();
-
-        // Term(int hash_value);
-        // Term(char *_word);
-        // string word;
-        Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
-        Term(const TermType _type) : type(_type) {}
-        // ~Term()
-        // {
-        //     std::cout << (size_t)this << " Term freed" << std::endl;
-        // }
-        size_t __hash__()
-        {
-            return this->is_hashed ? this->hash_value : this->do_hashing();
-        }
-
-        virtual size_t do_hashing()
-        {
-            this->hash_value = Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this});
-            this->is_hashed = true;
-            return this->hash_value;
-        }
-
-        inline bool is_atom() const { return this->type == TermType::ATOM; }
-        inline bool is_statement() const { return this->type == TermType::STATEMENT; }
-        inline bool is_compound() const { return this->type == TermType::COMPOUND; }
-
-        static pTerm create()
-        {
-            auto term = new Term();
-            // std::cout << "create Term " << (size_t)term << std::endl;
-            return pTerm(term);
-        }
-
-        static pTerm create(const char *word, void *interpreter = nullptr);
-
-        static pTerm clone(pTerm term);
-
-        bool operator==(Term &other);
-
-        bool operator<(Term &other);
-
-    protected:
-        template <typename _Container>
-        void _refresh_var_status(const _Container &terms)
-        {
-            this->has_var = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                        { return term->has_var; });
-            this->has_ivar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_ivar; });
-            this->has_dvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_dvar; });
-            this->has_qvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_qvar; });
-        }
-
-        void _init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms);
-
-        void _init_indexvars(const std::array<pIndexVar, 3> &variables, std::initializer_list<pTerm> terms);
-
-        void _build_indexvars()
-        {
-            if (this->has_ivar)
-                this->_vars_independent->build();
-            else
-                this->_vars_independent->_is_built = true;
-            if (this->has_dvar)
-                this->_vars_dependent->build();
-            else
-                this->_vars_dependent->_is_built = true;
-            if (this->has_qvar)
-                this->_vars_query->build();
-            else
-                this->_vars_query->_is_built = true;
-        }
-
-        std::array<pIndexVar, 3> _index_vars() const
-        {
-            return {this->_vars_independent, this->_vars_dependent, this->_vars_query};
-        }
-    };
-
-    class PYBIND11_EXPORT Iterator
-    {
-    public:
-        // using iterator_category = typename std::iterator_traits<pTerm *>::iterator_category;
-        // using value_type = typename std::iterator_traits<pTerm *>::value_type;
-        using value_type = pTerm;
-        // using reference = pTerm&;
-        // using pointer = pTerm*;
-        using difference_type = std::ptrdiff_t;
-        using iterator_category = std::input_iterator_tag;
-
-    public:
-        Iterator(const Iterator &iterator)
-        {
-            *this = iterator;
-            if (this->_is_commutative)
-                it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
-            else
-                it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
-        }
-        Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
-        Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
-
-        ~Iterator()
-        {
-            if (it_ == nullptr)
-                return;
-            if (this->_is_commutative)
-                delete ((std::vector<pTerm>::iterator *)it_);
-            else
-                delete ((std::set<pTerm>::iterator *)it_);
-            it_ = nullptr;
-        }
-
-        const pTerm &operator*()
-        {
-            if (this->_is_commutative)
-                return **((std::set<pTerm>::iterator *)it_);
-            else
-                return **((std::vector<pTerm>::iterator *)it_);
-        }
-
-        Iterator &operator++()
-        {
-            if (this->_is_commutative)
-                (*((std::set<pTerm>::iterator *)it_))++;
-            else
-                (*((std::vector<pTerm>::iterator *)it_))++;
-            return *this;
-        }
-
-        Iterator &operator++(int)
-        {
-            return ++(*this);
-        }
-
-        bool operator!=(const Iterator &other) const
-        {
-            if (this->_is_commutative)
-                return (*((std::set<pTerm>::iterator *)this->it_)) != (*((std::set<pTerm>::iterator *)other.it_));
-            else
-                return (*((std::vector<pTerm>::iterator *)this->it_)) != (*((std::vector<pTerm>::iterator *)other.it_));
-        }
-
-        bool operator==(const Iterator &other) const
-        {
-            if (this->_is_commutative)
-                return (*((std::set<pTerm>::iterator *)this->it_)) == (*((std::set<pTerm>::iterator *)other.it_));
-            else
-                return (*((std::vector<pTerm>::iterator *)this->it_)) == (*((std::vector<pTerm>::iterator *)other.it_));
-        }
-
-        Iterator operator+(int n) const
-        {
-            if (this->_is_commutative)
-            {
-                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
-                std::advance(newIt, n);
-                return Iterator(newIt);
-            }
-            else
-            {
-                std::vector<pTerm>::iterator newIt = *(std::vector<pTerm>::iterator *)it_;
-                std::advance(newIt, n);
-                return Iterator(newIt);
-            }
-        }
-        Iterator operator-(int n) const
-        {
-            if (this->_is_commutative)
-            {
-                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
-                std::advance(newIt, -n);
-                return Iterator(newIt);
-            }
-            else
-            {
-                std::vector<pTerm>::iterator new_it = *(std::vector<pTerm>::iterator *)it_;
-                std::advance(new_it, -n);
-                return Iterator(new_it);
-            }
-        }
-
-    private:
-        bool _is_commutative;
-        void *it_;
-    };
-
-    class PYBIND11_EXPORT Terms
-    {
-    public:
-        struct compare
-        {
-            bool operator()(const pTerm &a, const pTerm &b) const
-            {
-                auto &term1 = *a;
-                auto &term2 = *b;
-                return term1 < term2;
-                // return a < b;
-            }
-        };
-
-    public:
-        // std::vector<pTerm> terms;
-        std::vector<pTerm> terms_ordered;
-        std::set<pTerm, compare> terms_unordered;
-
-        // IndexVar _vars_independent = IndexVar();
-        // IndexVar _vars_dependent = IndexVar();
-        // IndexVar _vars_query = IndexVar();
-
-        bool _is_commutative;
-
-        Terms(bool is_commutative) : _is_commutative(is_commutative) {}
-
-        // Terms(std::list<pTerm> terms, bool is_commutative);
-        Terms(std::list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-        template <typename _Compare>
-        Terms(std::set<pTerm, _Compare> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-        Terms(std::vector<pTerm> &terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        Terms(std::initializer_list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        Terms(Terms &terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        inline static pTerms create(bool is_commutative)
-        {
-            return pTerms(new Terms(is_commutative));
-        }
-
-        template <typename _T>
-        inline static pTerms create(_T terms, bool is_commutative)
-        {
-            return pTerms(new Terms(terms, is_commutative));
-        }
-
-        inline static auto intersection(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> intersection((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp{};
-                std::set_intersection(
-                    intersection.begin(), intersection.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                intersection = temp;
-            }
-            return Terms::create(intersection, true);
-        }
-
-        inline static auto union_(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> union_((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp;
-                std::set_union(
-                    union_.begin(), union_.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                union_ = temp;
-            }
-            return Terms::create(union_, true);
-        }
-
-        inline static auto difference(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> difference((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp;
-                std::set_difference(
-                    difference.begin(), difference.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                difference = temp;
-            }
-            return Terms::create(difference, true);
-        }
-
-        inline void push_back(pTerm term)
-        {
-            if (this->_is_commutative)
-                this->terms_unordered.insert(term);
-            else
-                this->terms_ordered.push_back(term);
-        }
-
-        inline auto size()
-        {
-            if (this->_is_commutative)
-                return this->terms_unordered.size();
-            else
-                return this->terms_ordered.size();
-        }
-
-        Iterator begin() const
-        {
-            if (this->_is_commutative)
-                return Iterator(this->terms_unordered.begin());
-            else
-                return Iterator(this->terms_ordered.begin());
-        }
-
-        Iterator end() const
-        {
-            if (this->_is_commutative)
-                return Iterator(this->terms_unordered.end());
-            else
-                return Iterator(this->terms_ordered.end());
-        }
-
-        operator std::vector<pTerm>() const
-        {
-            if (this->_is_commutative)
-                return std::vector<pTerm>(this->terms_unordered.begin(), this->terms_unordered.end());
-            else
-                return this->terms_ordered;
-        }
-
-    private:
-        template <typename _T>
-        void fill_terms(_T terms)
-        {
-            if (this->_is_commutative)
-            {
-                for (auto it = terms.begin(); it != terms.end(); it++)
-                {
-                    this->terms_unordered.insert((*it));
-                }
-            }
-            else
-            {
-                for (auto it = terms.begin(); it != terms.end(); it++)
-                {
-                    this->terms_ordered.push_back((*it));
-                }
-            }
-        }
-    };
-    void pybind_term(py::module &m);
-    void pybind_terms(py::module &m);
-
-} // namespace Term
-// #include "Term.inl"
-
+#ifndef _TERM_H
+#define _TERM_H
+
+#include "Connector.h"
+#include "Copula.h"
+#include "utils/IndexVar.h"
+#include "utils/hash.h"
+#include <algorithm>
+#include <array>
+#include <list>
+#include <memory>
+#include <string>
+#include <unordered_set>
+#include <fmt/core.h>
+#include <pybind11/pybind11.h>
+
+// #include "../utils/repr.h"
+namespace VARIABLE
+{
+    class Variable;
+}
+
+namespace COMPOUND
+{
+    class Compound;
+}
+
+namespace STATEMENT
+{
+    class Statement;
+}
+
+namespace TERM
+{
+    namespace py = pybind11;
+    
+    using CONNECTOR::Connector;
+    using COPULA::Copula;
+    // using REPR::repr;
+    using INDEXVAR::IndexVar;
+    using INDEXVAR::pIndexVar;
+    using std::string;
+    using std::unordered_set;
+    using UTILS::Hash;
+    using UTILS::hash;
+
+
+    class Terms;
+    class Term;
+    // typedef std::shared_ptr<Term> pTerm;
+    class PYBIND11_EXPORT pTerm : public std::shared_ptr<Term>
+    {
+    public:
+        void *_interpreter = nullptr;
+
+    public:
+        // using std::shared_ptr<Term>::shared_ptr;
+        pTerm() : std::shared_ptr<Term>::shared_ptr() {}
+        pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
+        // pTerm() : std::shared_ptr<Term>() {}
+
+        ~pTerm();
+
+        std::string __repr__(void *interpreter = nullptr) const;
+
+    private:
+        void _free_from_interpreter();
+        // void _free_from_interpreter() {}
+    };
+
+    typedef std::shared_ptr<Terms> pTerms;
+
+    enum PYBIND11_EXPORT TermType
+    {
+        ATOM = 0,
+        STATEMENT = 1,
+        COMPOUND = 2,
+        INTERVAL = -1,
+        OPERATION = -2,
+        VARIABLE = -3
+    };
+
+    class PYBIND11_EXPORT Term
+    {
+    public:
+        /* for statement */
+        pTerm subject;
+        pTerm predicate;
+        Copula copula = COPULA::None;
+
+        /* for compound */
+        Connector connector = CONNECTOR::None;
+        pTerms terms;
+
+        /* for all */
+        TermType type = TermType::ATOM;
+
+        bool is_var : 1 = false;
+        bool is_ivar : 1 = false;
+        bool is_dvar : 1 = false;
+        bool is_qvar : 1 = false;
+        bool has_var : 1 = false;  // Whether the term contains variable(s).
+        bool has_ivar : 1 = false; // Whether the term contains independent variable(s).
+        bool has_dvar : 1 = false; // Whether the term contains dependent variable(s).
+        bool has_qvar : 1 = false; // Whether the term contains query variable(s).
+
+        bool is_closed : 1 = true; // Whether the term is closed or open in terms of variable.
+        bool is_interval : 1 = false;
+        bool is_operation : 1 = false;
+
+        bool is_higher_order : 1 = false;
+
+        bool is_hashed : 1 = false;
+        size_t hash_value = 0;
+
+        int complexity = 1; // The complexity of the term. Read only.
+
+        pIndexVar _vars_independent = IndexVar::create();
+        pIndexVar _vars_dependent = IndexVar::create();
+        pIndexVar _vars_query = IndexVar::create();
+
+        // Term(int hash_value);
+        // Term(char *_word);
+        // string word;
+        Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
+        Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default;
+        // ~Term()
+        // {
+        //     std::cout << (size_t)this << " Term freed" << std::endl;
+        // }
+        size_t __hash__()
+        {
+            return this->is_hashed ? this->hash_value : this->do_hashing();
+        }
+
+        virtual size_t do_hashing()
+        {
+            this->hash_value = Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this});
+            this->is_hashed = true;
+            return this->hash_value;
+        }
+
+        inline bool is_atom() const { return this->type == TermType::ATOM; }
+        inline bool is_statement() const { return this->type == TermType::STATEMENT; }
+        inline bool is_compound() const { return this->type == TermType::COMPOUND; }
+
+        static pTerm create()
+        {
+            auto term = new Term();
+            // std::cout << "create Term " << (size_t)term << std::endl;
+            return pTerm(term);
+        }
+
+        static pTerm create(const char *word, void *interpreter = nullptr);
+
+        static pTerm clone(pTerm term);
+
+        bool operator==(Term &other);
+
+        bool operator<(Term &other);
+
+    protected:
+        template <typename _Container>
+        void _refresh_var_status(const _Container &terms)
+        {
+            this->has_var = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                        { return term->has_var; });
+            this->has_ivar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_ivar; });
+            this->has_dvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_dvar; });
+            this->has_qvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_qvar; });
+        }
+
+        void _init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms);
+
+        void _init_indexvars(const std::array<pIndexVar, 3> &variables, std::initializer_list<pTerm> terms);
+
+        void _build_indexvars()
+        {
+            if (this->has_ivar)
+                this->_vars_independent->build();
+            else
+                this->_vars_independent->_is_built = true;
+            if (this->has_dvar)
+                this->_vars_dependent->build();
+            else
+                this->_vars_dependent->_is_built = true;
+            if (this->has_qvar)
+                this->_vars_query->build();
+            else
+                this->_vars_query->_is_built = true;
+        }
+
+        std::array<pIndexVar, 3> _index_vars() const
+        {
+            return {this->_vars_independent, this->_vars_dependent, this->_vars_query};
+        }
+    };
+
+    class PYBIND11_EXPORT Iterator
+    {
+    public:
+        // using iterator_category = typename std::iterator_traits<pTerm *>::iterator_category;
+        // using value_type = typename std::iterator_traits<pTerm *>::value_type;
+        using value_type = pTerm;
+        // using reference = pTerm&;
+        // using pointer = pTerm*;
+        using difference_type = std::ptrdiff_t;
+        using iterator_category = std::input_iterator_tag;
+
+    public:
+        Iterator(const Iterator &iterator)
+        {
+            *this = iterator;
+            if (this->_is_commutative)
+                it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
+            else
+                it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
+        }
+        Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
+        Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
+
+        ~Iterator()
+        {
+            if (it_ == nullptr)
+                return;
+            if (this->_is_commutative)
+                delete ((std::vector<pTerm>::iterator *)it_);
+            else
+                delete ((std::set<pTerm>::iterator *)it_);
+            it_ = nullptr;
+        }
+
+        const pTerm &operator*()
+        {
+            if (this->_is_commutative)
+                return **((std::set<pTerm>::iterator *)it_);
+            else
+                return **((std::vector<pTerm>::iterator *)it_);
+        }
+
+        Iterator &operator++()
+        {
+            if (this->_is_commutative)
+                (*((std::set<pTerm>::iterator *)it_))++;
+            else
+                (*((std::vector<pTerm>::iterator *)it_))++;
+            return *this;
+        }
+
+        Iterator &operator++(int)
+        {
+            return ++(*this);
+        }
+
+        bool operator!=(const Iterator &other) const
+        {
+            if (this->_is_commutative)
+                return (*((std::set<pTerm>::iterator *)this->it_)) != (*((std::set<pTerm>::iterator *)other.it_));
+            else
+                return (*((std::vector<pTerm>::iterator *)this->it_)) != (*((std::vector<pTerm>::iterator *)other.it_));
+        }
+
+        bool operator==(const Iterator &other) const
+        {
+            if (this->_is_commutative)
+                return (*((std::set<pTerm>::iterator *)this->it_)) == (*((std::set<pTerm>::iterator *)other.it_));
+            else
+                return (*((std::vector<pTerm>::iterator *)this->it_)) == (*((std::vector<pTerm>::iterator *)other.it_));
+        }
+
+        Iterator operator+(int n) const
+        {
+            if (this->_is_commutative)
+            {
+                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
+                std::advance(newIt, n);
+                return Iterator(newIt);
+            }
+            else
+            {
+                std::vector<pTerm>::iterator newIt = *(std::vector<pTerm>::iterator *)it_;
+                std::advance(newIt, n);
+                return Iterator(newIt);
+            }
+        }
+        Iterator operator-(int n) const
+        {
+            if (this->_is_commutative)
+            {
+                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
+                std::advance(newIt, -n);
+                return Iterator(newIt);
+            }
+            else
+            {
+                std::vector<pTerm>::iterator new_it = *(std::vector<pTerm>::iterator *)it_;
+                std::advance(new_it, -n);
+                return Iterator(new_it);
+            }
+        }
+
+    private:
+        bool _is_commutative;
+        void *it_;
+    };
+
+    class PYBIND11_EXPORT Terms
+    {
+    public:
+        struct compare
+        {
+            bool operator()(const pTerm &a, const pTerm &b) const
+            {
+                auto &term1 = *a;
+                auto &term2 = *b;
+                return term1 < term2;
+                // return a < b;
+            }
+        };
+
+    public:
+        // std::vector<pTerm> terms;
+        std::vector<pTerm> terms_ordered;
+        std::set<pTerm, compare> terms_unordered;
+
+        // IndexVar _vars_independent = IndexVar();
+        // IndexVar _vars_dependent = IndexVar();
+        // IndexVar _vars_query = IndexVar();
+
+        bool _is_commutative;
+
+        Terms(bool is_commutative) : _is_commutative(is_commutative) {}
+
+        // Terms(std::list<pTerm> terms, bool is_commutative);
+        Terms(std::list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+        template <typename _Compare>
+        Terms(std::set<pTerm, _Compare> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+        Terms(std::vector<pTerm> &terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        Terms(std::initializer_list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        Terms(Terms &terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        inline static pTerms create(bool is_commutative)
+        {
+            return pTerms(new Terms(is_commutative));
+        }
+
+        template <typename _T>
+        inline static pTerms create(_T terms, bool is_commutative)
+        {
+            return pTerms(new Terms(terms, is_commutative));
+        }
+
+        inline static auto intersection(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> intersection((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp{};
+                std::set_intersection(
+                    intersection.begin(), intersection.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                intersection = temp;
+            }
+            return Terms::create(intersection, true);
+        }
+
+        inline static auto union_(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> union_((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp;
+                std::set_union(
+                    union_.begin(), union_.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                union_ = temp;
+            }
+            return Terms::create(union_, true);
+        }
+
+        inline static auto difference(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> difference((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp;
+                std::set_difference(
+                    difference.begin(), difference.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                difference = temp;
+            }
+            return Terms::create(difference, true);
+        }
+
+        inline void push_back(pTerm term)
+        {
+            if (this->_is_commutative)
+                this->terms_unordered.insert(term);
+            else
+                this->terms_ordered.push_back(term);
+        }
+
+        inline auto size()
+        {
+            if (this->_is_commutative)
+                return this->terms_unordered.size();
+            else
+                return this->terms_ordered.size();
+        }
+
+        Iterator begin() const
+        {
+            if (this->_is_commutative)
+                return Iterator(this->terms_unordered.begin());
+            else
+                return Iterator(this->terms_ordered.begin());
+        }
+
+        Iterator end() const
+        {
+            if (this->_is_commutative)
+                return Iterator(this->terms_unordered.end());
+            else
+                return Iterator(this->terms_ordered.end());
+        }
+
+        operator std::vector<pTerm>() const
+        {
+            if (this->_is_commutative)
+                return std::vector<pTerm>(this->terms_unordered.begin(), this->terms_unordered.end());
+            else
+                return this->terms_ordered;
+        }
+
+    private:
+        template <typename _T>
+        void fill_terms(_T terms)
+        {
+            if (this->_is_commutative)
+            {
+                for (auto it = terms.begin(); it != terms.end(); it++)
+                {
+                    this->terms_unordered.insert((*it));
+                }
+            }
+            else
+            {
+                for (auto it = terms.begin(); it != terms.end(); it++)
+                {
+                    this->terms_ordered.push_back((*it));
+                }
+            }
+        }
+    };
+    void pybind_term(py::module &m);
+    void pybind_terms(py::module &m);
+
+} // namespace Term
+// #include "Term.inl"
+
 #endif // _TERM_H
\ No newline at end of file
-- 
2.43.0


From 08cb3c5ed024b79158c50d6bfc255e0588133b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 09/40] fix: make the component iterator own its wrapped
 iterator

---
 Narsese/include/Term.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 8974960..2482fdc 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -212,9 +212,8 @@ namespace TERM
         using iterator_category = std::input_iterator_tag;
 
     public:
-        Iterator(const Iterator &iterator)
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
         {
-            *this = iterator;
             if (this->_is_commutative)
                 it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
             else
@@ -228,12 +227,20 @@ namespace TERM
             if (it_ == nullptr)
                 return;
             if (this->_is_commutative)
-                delete ((std::vector<pTerm>::iterator *)it_);
-            else
                 delete ((std::set<pTerm>::iterator *)it_);
+            else
+                delete ((std::vector<pTerm>::iterator *)it_);
             it_ = nullptr;
         }
 
+        Iterator &operator=(const Iterator &iterator)
+        {
+            Iterator copy(iterator);
+            std::swap(this->_is_commutative, copy._is_commutative);
+            std::swap(this->it_, copy.it_);
+            return *this;
+        }
+
         const pTerm &operator*()
         {
             if (this->_is_commutative)
-- 
2.43.0


From 15a92f155f8d22fcf23fe77c9c381af32c82f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 10/40] fix: colored rendering of names, sentences and tasks

---
 Interpreter/src/Interpreter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c44eba..55a2ca1 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -45,7 +45,7 @@ string Interpreter::interpret(Term &term, bool colored)
             auto str = prefix + std::to_string(idx_var);
             if (colored)
             {
-                return fmt::format(color_term, str);
+                return fmt::format(color_term, "{}", str);
             }
             else
             {
@@ -68,9 +68,9 @@ string Interpreter::interpret(Term &term, bool colored)
         if (term.type == TermType::ATOM && colored)
         {
             if (!term.is_operation)
-                return fmt::format(color_term, this->get(key));
+                return fmt::format(color_term, "{}", this->get(key));
             else
-                return fmt::format(color_operation, this->get(key));
+                return fmt::format(color_operation, "{}", this->get(key));
         }
         return this->get(key);
     }
@@ -230,7 +230,7 @@ string Interpreter::interpret(Task &task, bool colored)
     auto color_durability = fmt::bg(fmt::rgb(10, std::min(255, int(255 * d / 2 + 10)), 10));
     auto color_quality = fmt::bg(fmt::rgb(10, 10, std::min(255, int(255 * q / 1.5 + 10))));
 
-    auto str_sentence = interpret(*task.sentence);
+    auto str_sentence = interpret(*task.sentence, colored);
 
     if (colored)
     {
@@ -268,7 +268,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
 
-        return fmt::format("{}{} {}{} {}{}", str_term, str_punct, str_stamp, str_truth);
+        return fmt::format("{}{} {}{}", str_term, str_punct, str_stamp, str_truth);
     }
     else
     {
-- 
2.43.0


From 2973101aae3160ac1e2897ca58a6151e10af973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 11/40] fix: keep the full width of term hashes in the
 interpreter

---
 Interpreter/include/Interpreter.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index d179b37..4f23977 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -38,7 +38,7 @@ namespace INTERPRETER
         map<string, size_t> dictionary_inv;
         map<size_t, int> count;
 
-        inline void put(int key, string name, void *object)
+        inline void put(size_t key, string name, void *object)
         {
             dictionary[key] = name;
             objects[key] = (pTerm *)object;
@@ -46,12 +46,12 @@ namespace INTERPRETER
             count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);
         }
 
-        inline string &get(int key) { return dictionary[key]; }
-        inline pTerm *get_object(int key) { return objects[key]; }
-        inline int get_by_name(string &name) { return dictionary_inv[name]; }
-        inline bool check(int key) { return dictionary.count(key) == 1; }
+        inline string &get(size_t key) { return dictionary[key]; }
+        inline pTerm *get_object(size_t key) { return objects[key]; }
+        inline size_t get_by_name(string &name) { return dictionary_inv[name]; }
+        inline bool check(size_t key) { return dictionary.count(key) == 1; }
         inline bool check_by_name(string &name) { return dictionary_inv.count(name) == 1; }
-        inline int check_count(int key)
+        inline int check_count(size_t key)
         {
             if (count.count(key) == 0)
             {
@@ -68,7 +68,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool remove(int key)
+        inline bool remove(size_t key)
         {
             if (check(key))
             {
@@ -118,7 +118,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool erase(int key)
+        inline bool erase(size_t key)
         {
             if (check_count(key) > 0)
             {
-- 
2.43.0


From 5bb17a72875529e9bf6af3b0cf25bbdc28745cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 12/40] fix: keep the connector of components a compound cannot
 merge

---
 Narsese/src/Compound.cpp | 700 +++++++++++++++++++--------------------
 1 file changed, 350 insertions(+), 350 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index a99f6ff..2ddda6c 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -1,350 +1,350 @@
-// #include "../include/Narsese.h"
-#include "../include/Compound.h"
-#include "utils/hash.h"
-#include <map>
-#include <numeric>
-#include <tuple>
-#include <unordered_map>
-#include <vector>
-#include "Interpreter/include/Interpreter.hpp"
-
-using namespace COMPOUND;
-using std::tuple;
-using std::vector;
-using UTILS::hash;
-
-/*
-The `compounds` should have the same `connector`.
-(&, {A, B}, {B, C}) ====> {B}
-(|, {A, B}, {B, C}) ====> {A, B, C}
-(&, [A, B], [B, C]) ====> [A, B, C]
-(|, [A, B], [B, C]) ====> [B]
-(-, {A, B}, {B, C}) ====> {A}
-(~, [A, B], [B, C]) ====> [A]
-
-It is ensured that the concerned components have no further nested compound which should be unfolded, because if there were, it would be unfolded when building its parent compound.
-
-Make sure all the `compounds` have the same `connector`
-*/
-pTerms _merge_compounds(Connector connector_parent, Connector connector, const vector<pTerm> &compounds)
-{
-    auto get_all_terms = [connector_parent](const vector<pTerm> &input, std::vector<pTerms> &output)
-    {
-        for (auto term : input)
-        {
-            auto &cmpd = (Compound &)*term;
-            const auto components = cmpd.terms;
-            output.push_back(components);
-        }
-    };
-
-    if (connector_parent == Connector::ExtensionalIntersection)
-    {
-        if (connector == Connector::ExtensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::intersection(terms_all);
-        }
-        else if (connector == Connector::IntensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::union_(terms_all);
-        }
-        else
-        {
-            return nullptr; // Return nullptr indicating no merge is needed
-        }
-    }
-    else if (connector_parent == Connector::IntensionalIntersection)
-    {
-        if (connector == Connector::ExtensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::union_(terms_all);
-        }
-        else if (connector == Connector::IntensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::intersection(terms_all);
-        }
-        else
-        {
-            return nullptr; // Return nullptr indicating no merge is needed
-        }
-    }
-    else if (connector_parent == Connector::ExtensionalDifference && connector == Connector::ExtensionalSet)
-    {
-        std::vector<pTerms> terms_all;
-        get_all_terms(compounds, terms_all);
-        return Terms::difference(terms_all);
-    }
-    else if (connector_parent == Connector::IntensionalDifference && connector == Connector::IntensionalSet)
-    {
-        std::vector<pTerms> terms_all;
-        get_all_terms(compounds, terms_all);
-        return Terms::difference(terms_all);
-    }
-    else if (connector_parent == connector)
-    {
-        std::vector<pTerm> terms_all;
-        for (auto term : compounds)
-        {
-            auto &cmpd = (Compound &)*term;
-            const auto components = cmpd.terms;
-            terms_all.insert(terms_all.end(), components->begin(), components->end());
-        }
-        return Terms::create(terms_all, CONNECTOR::is_commutative(connector));
-    }
-    else
-    {
-        return nullptr; // Return nullptr indicating no merge is needed
-    }
-}
-
-/*
-pre-process the terms, return the connecor of this compound and the set/list of components.
-For `{{A, B}, {B, C}}`, return `{, A, B, C`;
-    proof: {{A, B}, {B, C}}={(|, {A}, {B}), (|, {B}, {C})}=(|, (|, {A}, {B}), (|, {B}, {C}))=(|, {A}, {B}, {C})={A, B, C}
-For `[[A, B], [B, C]]`, return `[, A, B, C`;
-For `(con, (con, A, B), (con, B, C))`, return `con, A, B, C` if con is commutative, else return `con, A, B, B, C`
-For `(|, {A, B}, {B, C})`, return `{, A, B, C`;
-For `(&, [A, B], [B, C])`, return `[, A, B, C`;
-For `(con, A, B, C)`, return `con, A, B, C`;
-For `{{A, B}, {B, C}, D}`, return `{, {A, B, C}, D`;
-
-Returns:
-    connector, terms
-
-*/
-std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connector_parent, pTerms terms)
-{
-    // static const std::set<Connector> set1{Connector::Product, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
-    auto is_commutative = CONNECTOR::is_commutative(connector_parent);
-    if (!CONNECTOR::is_reducible(connector_parent))
-    {
-        /*
-        For example, in the test-case `nal6.22.nal`, there is a statement
-        `<(*,(*,(*,0))) --> num>`
-        */
-        return {connector_parent, terms};
-    }
-    if (is_commutative)
-    {
-        /*
-        if there are terms with the same commutative connector, they should be combined together
-        */
-        // auto categories = std::map<Connector, std::vector<pTerm>>();
-        // auto categories = std::unordered_map<Connector, std::vector<pTerm>>();
-        std::unordered_map<Connector, std::vector<pTerm>> categories{};
-        pTerms _terms;
-        Connector _connector;
-        /* Step 1. Categorize the terms according to their connectors. */
-
-        pTerms terms2 = terms;
-        pTerms terms = pTerms(new Terms(is_commutative));
-        for (auto term : *terms2)
-        {
-            if (term->is_compound() && term->connector == connector_parent)
-                for (auto _term : *(term->terms))
-                    terms->push_back(_term);
-            else
-                terms->push_back(term);
-        }
-
-        for (auto term : *terms)
-        {
-            _connector = Connector::None; // `None` means the connector of the term is not cared about, because it just needs to be added into the parent compound-term as a whole.
-            if (term->is_compound())
-            {
-                auto &cmpd = (Compound &)*term;
-                if (cmpd.is_commutative)
-                    _connector = cmpd.connector;
-            }
-            if (!categories.contains(_connector))
-                categories[_connector] = std::vector<pTerm>();
-            auto &category = categories[_connector];
-            category.push_back(term);
-        }
-
-        /* Step 2. */
-        std::vector<std::tuple<Connector, pTerms>> terms_norm;
-        for (const auto &pair : categories)
-        {
-            auto &connector = pair.first;
-            auto &compounds = pair.second;
-            if (connector == Connector::None)
-            {
-                for (auto &compound : compounds)
-                    terms_norm.push_back({connector, Terms::create(std::vector{compound}, true)});
-                continue;
-            }
-
-            /* Now, `connector` is not `None`. */
-            auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr)
-            {
-                for (auto &compound : compounds)
-                    terms_norm.push_back({connector, compound->terms});
-                continue;
-            }
-
-            /*
-            Now, `terms_merged` is not `None`.
-
-            However, the compounds (in `terms_merged`), as components, shouldn't further be constructed as a compound term immediately, as there are some cases where there is only one compound and the parent connector should be set as the current single compound connector, for example, (|, {A, B}, {C, D}) is handled and `terms_merged` is `A, B, C, D`. In this case, if this function returned a compound `{A, B, C, D}`, the parent compound would be (&, {A, B, C, D}), which is obviously incorrect.
-
-            Hence, the final construction of the compound is out of this function.
-            */
-            terms_norm.push_back({connector, terms_merged});
-        }
-
-        /* Step 3. */
-        if (terms_norm.size() > 1)
-        {
-            std::vector<pTerm> _terms_all;
-            for (auto &pair : terms_norm)
-            {
-                std::tie(_connector, _terms) = pair;
-                if (_connector == Connector::None || _connector == connector_parent)
-                {
-                    _terms_all.insert(_terms_all.end(), _terms->begin(), _terms->end());
-                }
-                else if (CONNECTOR::check_valid(_connector, _terms->size()))
-                {
-                    auto _term = Compound::create(_connector, _terms);
-                    _terms_all.push_back(_term);
-                }
-            }
-            if (_terms_all.size() > 1)
-            {
-                return {connector_parent, Terms::create(_terms_all, true)};
-            }
-            else // _terms_all.size() == 1
-            {
-                auto _term = *_terms_all.begin();
-                if (_term->is_compound())
-                {
-                    auto &_cmpd = (Compound &)(*_term);
-                    auto _connector = _cmpd.connector;
-                    terms_norm = {{_connector, _cmpd.terms}};
-                }
-                else
-                {
-                    terms_norm = {{Connector::None, Terms::create(_terms_all, true)}};
-                }
-            }
-        }
-
-        /* Step 4. */
-        {
-            /*
-            Now, there is only one term in `terms_norm`.
-            */
-            std::tie(_connector, _terms) = *terms_norm.begin();
-            /*
-            the connector returned depends on the types of `connector` and `connector_parent`. For example,
-                if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
-                if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
-                if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
-            */
-            if ((_connector == Connector::ExtensionalSet && connector_parent == Connector::IntensionalIntersection) ||
-                (_connector == Connector::IntensionalSet && connector_parent == Connector::ExtensionalIntersection))
-            {
-                return {_connector, Terms::create(*_terms, true)};
-            }
-
-            /* otherwise, return `connector_parent` as the connector. */
-            return {connector_parent, Terms::create(*_terms, true)};
-            // return connector_parent, Terms(terms, is_commutative=True, is_input=is_input)
-        }
-    }
-    else
-    {
-        /*
-        E.g. (&/, (&/, A, B), (&|, C, D), E) will be converted to (&/, A, B, (&|, C, D), E)
-        */
-        auto expanded_terms = pTerms(new Terms(is_commutative));
-
-        for (const auto &term : *terms)
-        {
-            if (term->is_compound() && term->connector == connector_parent)
-            {
-                auto &cmpd = (Compound &)*term;
-                for (const auto &component : cmpd.components())
-                {
-                    expanded_terms->push_back(component);
-                }
-            }
-            else
-            {
-                expanded_terms->push_back(term);
-            }
-        }
-        return {connector_parent, expanded_terms};
-    }
-    return {connector_parent, terms};
-}
-
-Compound::Compound(Connector connector, pTerms terms, bool is_input) : Term(TermType::COMPOUND)
-{
-    this->is_hashed = false;
-
-    // this->type = TermType::COMPOUND;
-    this->connector = connector;
-    pTerms _terms;
-    std::tie(this->connector, _terms) = prepocess_terms(*this, connector, terms);
-    this->is_commutative = CONNECTOR::is_commutative(this->connector);
-    if (is_input)
-    {
-        this->terms = _terms;
-    }
-    else
-    {
-        this->terms = Terms::create(this->is_commutative);
-        for (auto &_term : *_terms)
-            this->terms->push_back(Term::clone(_term));
-    }
-    this->hash_value = hash(*this);
-    this->complexity = std::accumulate(this->terms->begin(), this->terms->end(), 0,
-                                       [](int sum, const auto &term)
-                                       { return sum + term->complexity; });
-
-    this->_refresh_var_status(*this->terms);
-    this->_init_indexvars(this->_index_vars(), *this->terms);
-    this->_build_indexvars();
-}
-
-Compound::Compound(Connector connector, std::list<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-Compound::Compound(Connector connector, std::vector<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-Compound::Compound(Connector connector, std::initializer_list<pTerm> terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-void COMPOUND::pybind_compound(py::module &m)
-{
-    py::class_<COMPOUND::pCompound, TERM::pTerm>(m, "Compound")
-        .def(py::init(
-            [](CONNECTOR::Connector connector, py::args args)
-            {
-                std::vector<TERM::pTerm> terms{};
-                for (auto arg : args)
-                    terms.push_back(py::cast<TERM::pTerm>(arg));
-                return COMPOUND::Compound::create(connector, terms);
-            }))
-        // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-        .def("__repr__", [](const pCompound &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
-            });
-}
+// #include "../include/Narsese.h"
+#include "../include/Compound.h"
+#include "utils/hash.h"
+#include <map>
+#include <numeric>
+#include <tuple>
+#include <unordered_map>
+#include <vector>
+#include "Interpreter/include/Interpreter.hpp"
+
+using namespace COMPOUND;
+using std::tuple;
+using std::vector;
+using UTILS::hash;
+
+/*
+The `compounds` should have the same `connector`.
+(&, {A, B}, {B, C}) ====> {B}
+(|, {A, B}, {B, C}) ====> {A, B, C}
+(&, [A, B], [B, C]) ====> [A, B, C]
+(|, [A, B], [B, C]) ====> [B]
+(-, {A, B}, {B, C}) ====> {A}
+(~, [A, B], [B, C]) ====> [A]
+
+It is ensured that the concerned components have no further nested compound which should be unfolded, because if there were, it would be unfolded when building its parent compound.
+
+Make sure all the `compounds` have the same `connector`
+*/
+pTerms _merge_compounds(Connector connector_parent, Connector connector, const vector<pTerm> &compounds)
+{
+    auto get_all_terms = [connector_parent](const vector<pTerm> &input, std::vector<pTerms> &output)
+    {
+        for (auto term : input)
+        {
+            auto &cmpd = (Compound &)*term;
+            const auto components = cmpd.terms;
+            output.push_back(components);
+        }
+    };
+
+    if (connector_parent == Connector::ExtensionalIntersection)
+    {
+        if (connector == Connector::ExtensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::intersection(terms_all);
+        }
+        else if (connector == Connector::IntensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::union_(terms_all);
+        }
+        else
+        {
+            return nullptr; // Return nullptr indicating no merge is needed
+        }
+    }
+    else if (connector_parent == Connector::IntensionalIntersection)
+    {
+        if (connector == Connector::ExtensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::union_(terms_all);
+        }
+        else if (connector == Connector::IntensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::intersection(terms_all);
+        }
+        else
+        {
+            return nullptr; // Return nullptr indicating no merge is needed
+        }
+    }
+    else if (connector_parent == Connector::ExtensionalDifference && connector == Connector::ExtensionalSet)
+    {
+        std::vector<pTerms> terms_all;
+        get_all_terms(compounds, terms_all);
+        return Terms::difference(terms_all);
+    }
+    else if (connector_parent == Connector::IntensionalDifference && connector == Connector::IntensionalSet)
+    {
+        std::vector<pTerms> terms_all;
+        get_all_terms(compounds, terms_all);
+        return Terms::difference(terms_all);
+    }
+    else if (connector_parent == connector)
+    {
+        std::vector<pTerm> terms_all;
+        for (auto term : compounds)
+        {
+            auto &cmpd = (Compound &)*term;
+            const auto components = cmpd.terms;
+            terms_all.insert(terms_all.end(), components->begin(), components->end());
+        }
+        return Terms::create(terms_all, CONNECTOR::is_commutative(connector));
+    }
+    else
+    {
+        return nullptr; // Return nullptr indicating no merge is needed
+    }
+}
+
+/*
+pre-process the terms, return the connecor of this compound and the set/list of components.
+For `{{A, B}, {B, C}}`, return `{, A, B, C`;
+    proof: {{A, B}, {B, C}}={(|, {A}, {B}), (|, {B}, {C})}=(|, (|, {A}, {B}), (|, {B}, {C}))=(|, {A}, {B}, {C})={A, B, C}
+For `[[A, B], [B, C]]`, return `[, A, B, C`;
+For `(con, (con, A, B), (con, B, C))`, return `con, A, B, C` if con is commutative, else return `con, A, B, B, C`
+For `(|, {A, B}, {B, C})`, return `{, A, B, C`;
+For `(&, [A, B], [B, C])`, return `[, A, B, C`;
+For `(con, A, B, C)`, return `con, A, B, C`;
+For `{{A, B}, {B, C}, D}`, return `{, {A, B, C}, D`;
+
+Returns:
+    connector, terms
+
+*/
+std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connector_parent, pTerms terms)
+{
+    // static const std::set<Connector> set1{Connector::Product, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
+    auto is_commutative = CONNECTOR::is_commutative(connector_parent);
+    if (!CONNECTOR::is_reducible(connector_parent))
+    {
+        /*
+        For example, in the test-case `nal6.22.nal`, there is a statement
+        `<(*,(*,(*,0))) --> num>`
+        */
+        return {connector_parent, terms};
+    }
+    if (is_commutative)
+    {
+        /*
+        if there are terms with the same commutative connector, they should be combined together
+        */
+        // auto categories = std::map<Connector, std::vector<pTerm>>();
+        // auto categories = std::unordered_map<Connector, std::vector<pTerm>>();
+        std::unordered_map<Connector, std::vector<pTerm>> categories{};
+        pTerms _terms;
+        Connector _connector;
+        /* Step 1. Categorize the terms according to their connectors. */
+
+        pTerms terms2 = terms;
+        pTerms terms = pTerms(new Terms(is_commutative));
+        for (auto term : *terms2)
+        {
+            if (term->is_compound() && term->connector == connector_parent)
+                for (auto _term : *(term->terms))
+                    terms->push_back(_term);
+            else
+                terms->push_back(term);
+        }
+
+        for (auto term : *terms)
+        {
+            _connector = Connector::None; // `None` means the connector of the term is not cared about, because it just needs to be added into the parent compound-term as a whole.
+            if (term->is_compound())
+            {
+                auto &cmpd = (Compound &)*term;
+                if (cmpd.is_commutative)
+                    _connector = cmpd.connector;
+            }
+            if (!categories.contains(_connector))
+                categories[_connector] = std::vector<pTerm>();
+            auto &category = categories[_connector];
+            category.push_back(term);
+        }
+
+        /* Step 2. */
+        std::vector<std::tuple<Connector, pTerms>> terms_norm;
+        for (const auto &pair : categories)
+        {
+            auto &connector = pair.first;
+            auto &compounds = pair.second;
+            if (connector == Connector::None)
+            {
+                for (auto &compound : compounds)
+                    terms_norm.push_back({connector, Terms::create(std::vector{compound}, true)});
+                continue;
+            }
+
+            /* Now, `connector` is not `None`. */
+            auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
+            if (terms_merged == nullptr || terms_merged->size() == 0)
+            {
+                /* Nothing to merge into, keep the compounds as they are. */
+                for (auto &compound : compounds)
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
+                continue;
+            }
+
+            /*
+            Now, `terms_merged` is not `None`.
+
+            However, the compounds (in `terms_merged`), as components, shouldn't further be constructed as a compound term immediately, as there are some cases where there is only one compound and the parent connector should be set as the current single compound connector, for example, (|, {A, B}, {C, D}) is handled and `terms_merged` is `A, B, C, D`. In this case, if this function returned a compound `{A, B, C, D}`, the parent compound would be (&, {A, B, C, D}), which is obviously incorrect.
+
+            Hence, the final construction of the compound is out of this function.
+            */
+            terms_norm.push_back({connector, terms_merged});
+        }
+
+        /* Step 3. */
+        if (terms_norm.size() > 1)
+        {
+            std::vector<pTerm> _terms_all;
+            for (auto &pair : terms_norm)
+            {
+                std::tie(_connector, _terms) = pair;
+                if (_connector == Connector::None || _connector == connector_parent)
+                {
+                    _terms_all.insert(_terms_all.end(), _terms->begin(), _terms->end());
+                }
+                else if (CONNECTOR::check_valid(_connector, _terms->size()))
+                {
+                    auto _term = Compound::create(_connector, _terms);
+                    _terms_all.push_back(_term);
+                }
+            }
+            if (_terms_all.size() > 1)
+            {
+                return {connector_parent, Terms::create(_terms_all, true)};
+            }
+            else // _terms_all.size() == 1
+            {
+                auto _term = *_terms_all.begin();
+                if (_term->is_compound())
+                {
+                    auto &_cmpd = (Compound &)(*_term);
+                    auto _connector = _cmpd.connector;
+                    terms_norm = {{_connector, _cmpd.terms}};
+                }
+                else
+                {
+                    terms_norm = {{Connector::None, Terms::create(_terms_all, true)}};
+                }
+            }
+        }
+
+        /* Step 4. */
+        {
+            /*
+            Now, there is only one term in `terms_norm`.
+            */
+            std::tie(_connector, _terms) = *terms_norm.begin();
+            /*
+            the connector returned depends on the types of `connector` and `connector_parent`. For example,
+                if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
+                if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
+                if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
+            */
+            if (_connector != Connector::None)
+            {
+                return {_connector, Terms::create(*_terms, true)};
+            }
+
+            /* otherwise, return `connector_parent` as the connector. */
+            return {connector_parent, Terms::create(*_terms, true)};
+            // return connector_parent, Terms(terms, is_commutative=True, is_input=is_input)
+        }
+    }
+    else
+    {
+        /*
+        E.g. (&/, (&/, A, B), (&|, C, D), E) will be converted to (&/, A, B, (&|, C, D), E)
+        */
+        auto expanded_terms = pTerms(new Terms(is_commutative));
+
+        for (const auto &term : *terms)
+        {
+            if (term->is_compound() && term->connector == connector_parent)
+            {
+                auto &cmpd = (Compound &)*term;
+                for (const auto &component : cmpd.components())
+                {
+                    expanded_terms->push_back(component);
+                }
+            }
+            else
+            {
+                expanded_terms->push_back(term);
+            }
+        }
+        return {connector_parent, expanded_terms};
+    }
+    return {connector_parent, terms};
+}
+
+Compound::Compound(Connector connector, pTerms terms, bool is_input) : Term(TermType::COMPOUND)
+{
+    this->is_hashed = false;
+
+    // this->type = TermType::COMPOUND;
+    this->connector = connector;
+    pTerms _terms;
+    std::tie(this->connector, _terms) = prepocess_terms(*this, connector, terms);
+    this->is_commutative = CONNECTOR::is_commutative(this->connector);
+    if (is_input)
+    {
+        this->terms = _terms;
+    }
+    else
+    {
+        this->terms = Terms::create(this->is_commutative);
+        for (auto &_term : *_terms)
+            this->terms->push_back(Term::clone(_term));
+    }
+    this->hash_value = hash(*this);
+    this->complexity = std::accumulate(this->terms->begin(), this->terms->end(), 0,
+                                       [](int sum, const auto &term)
+                                       { return sum + term->complexity; });
+
+    this->_refresh_var_status(*this->terms);
+    this->_init_indexvars(this->_index_vars(), *this->terms);
+    this->_build_indexvars();
+}
+
+Compound::Compound(Connector connector, std::list<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+Compound::Compound(Connector connector, std::vector<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+Compound::Compound(Connector connector, std::initializer_list<pTerm> terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+void COMPOUND::pybind_compound(py::module &m)
+{
+    py::class_<COMPOUND::pCompound, TERM::pTerm>(m, "Compound")
+        .def(py::init(
+            [](CONNECTOR::Connector connector, py::args args)
+            {
+                std::vector<TERM::pTerm> terms{};
+                for (auto arg : args)
+                    terms.push_back(py::cast<TERM::pTerm>(arg));
+                return COMPOUND::Compound::create(connector, terms);
+            }))
+        // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
+        .def("__repr__", [](const pCompound &self, void* interpreter=nullptr){
+                if (interpreter == nullptr)
+                    interpreter = (void *)&INTERPRETER::interpreter;
+                return self.__repr__(interpreter);
+            });
+}
-- 
2.43.0


From f42adb19f8e2e20647df3507d5a0262345b768f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 13/40] fix: start every parse from a defined parser state

---
 Narsese/Parser/Parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index fcb41a8..6285f48 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -7,7 +7,12 @@ Parser::Parser()
 {
     this->eof = '\n';
     this->stacksize = 0;
-    this->buf = NULL;
+    this->stack = this->tos = NULL;
+    this->lexem = NULL;
+    this->buf = this->bufend = NULL;
+    this->len = 0;
+    this->error_delay = this->error_count = 0;
+    this->ast = NULL;
     // const char *empty = "";
     // const char* start = "start";
     // auto len = sizeof(this->productions)/sizeof(this->productions[0]);
@@ -30,6 +35,7 @@ void *Parser::parse_string(std::string &input)
     char_fetcher.switch_string_mode();
     char_fetcher.fill(input);
 
+    this->ast = this->ast_free(this->ast);
     this->parse();
 
     char_fetcher.clear();
@@ -49,6 +55,7 @@ void *Parser::parse_string(std::string &input)
 void *Parser::parse_input()
 {
     char_fetcher.switch_stdin_mode();
+    this->ast = this->ast_free(this->ast);
     this->parse();
     /* Print AST */
     if (this->ast)
-- 
2.43.0


From 9643495514b46aa1f21d4af9f840b2f2be60c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 14/40] fix: report parsing errors to Python as RuntimeError

---
 Narsese/Parser/NarseseParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 22e8b84..84e392d 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -1005,12 +1005,12 @@ void NARSESEPARSER::pybind_parse(py::module &m)
 			{
 				// std::cout << e.what() << std::endl;
 				PyErr_SetString(PyExc_RuntimeError, e.what());
-				return py::none();
+				throw py::error_already_set();
 			}
 			catch (...)
 			{
 				PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred.");
-				return pybind11::none();
+				throw py::error_already_set();
 			}
 		},
 		py::arg("line"));
-- 
2.43.0


From cb52c1bc98725bf2d0f02d86876252e4a15db381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 15/40] fix: make repr() work from Python

---
 Narsese/src/Compound.cpp  |   6 +-
 Narsese/src/Sentence.cpp  |   6 +-
 Narsese/src/Statement.cpp |  58 ++++----
 Narsese/src/Task.cpp      |   6 +-
 Narsese/src/Term.cpp      | 282 +++++++++++++++++++-------------------
 5 files changed, 174 insertions(+), 184 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 2ddda6c..09082b3 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -342,9 +342,7 @@ void COMPOUND::pybind_compound(py::module &m)
                 return COMPOUND::Compound::create(connector, terms);
             }))
         // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-        .def("__repr__", [](const pCompound &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
+        .def("__repr__", [](const pCompound &self){
+                return self.__repr__((void *)&INTERPRETER::interpreter);
             });
 }
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 49b06d9..c62fba8 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -36,10 +36,8 @@ namespace SENTENCE
                     return SENTENCE::Sentence::create(term, _punct, _truth, _stamp);
                 }), py::arg("term"), py::arg("punct"), py::arg("truth"), py::arg("stamp"))
             // .def("__repr__", &pSentence::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-            .def("__repr__", [](const pSentence &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
+            .def("__repr__", [](const pSentence &self){
+                return self.__repr__((void *)&INTERPRETER::interpreter);
             });
     }
 }
\ No newline at end of file
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 3f40542..4cc25a7 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -1,30 +1,28 @@
-#include "../include/Statement.h"
-#include "../include/Term.h"
-#include "Interpreter/include/Interpreter.hpp"
-#include <string>
-#include <vector>
-
-using string = std::string;
-using std::unordered_set;
-using TERM::Term;
-using UTILS::hash;
-
-namespace STATEMENT
-{
-
-    void pybind_statement(py::module &m)
-    {
-        py::class_<STATEMENT::pStatement, TERM::pTerm>(m, "Statement")
-            .def(py::init(
-                [](TERM::pTerm subject, COPULA::Copula copula, TERM::pTerm predicate)
-                {
-                    return STATEMENT::Statement::create(subject, copula, predicate);
-                }))
-            // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-            .def("__repr__", [](const pStatement &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
-            });
-    }
-}
+#include "../include/Statement.h"
+#include "../include/Term.h"
+#include "Interpreter/include/Interpreter.hpp"
+#include <string>
+#include <vector>
+
+using string = std::string;
+using std::unordered_set;
+using TERM::Term;
+using UTILS::hash;
+
+namespace STATEMENT
+{
+
+    void pybind_statement(py::module &m)
+    {
+        py::class_<STATEMENT::pStatement, TERM::pTerm>(m, "Statement")
+            .def(py::init(
+                [](TERM::pTerm subject, COPULA::Copula copula, TERM::pTerm predicate)
+                {
+                    return STATEMENT::Statement::create(subject, copula, predicate);
+                }))
+            // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
+            .def("__repr__", [](const pStatement &self){
+                return self.__repr__((void *)&INTERPRETER::interpreter);
+            });
+    }
+}
diff --git a/Narsese/src/Task.cpp b/Narsese/src/Task.cpp
index 767b102..0aaacec 100755
--- a/Narsese/src/Task.cpp
+++ b/Narsese/src/Task.cpp
@@ -21,10 +21,8 @@ namespace TASK
         .def_property_readonly("sentence", &TASK::pTask::sentence)
         .def_property_readonly("term", &TASK::pTask::term)
         // .def("__repr__", &TASK::pTask::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-        .def("__repr__", [](const pTask &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
+        .def("__repr__", [](const pTask &self){
+                return self.__repr__((void *)&INTERPRETER::interpreter);
             });
     }
 
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index c19e2fc..eb2313d 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -1,142 +1,140 @@
-#include "../include/Term.h"
-#include "../include/Copula.h"
-#include "../include/Term.inl"
-#include "Interpreter/include/Interpreter.hpp"
-#include "utils/hash.h"
-#include <list>
-#include <pybind11/stl.h>
-#include <string>
-#include <vector>
-
-// using namespace TERM;
-using INTERPRETER::Interpreter;
-using std::string;
-using TERM::pTerm;
-
-namespace TERM
-{
-    pTerm Term::create(const char *word, void *interpreter)
-    {
-        if (interpreter == nullptr)
-        {
-            interpreter = &INTERPRETER::interpreter;
-        }
-        auto &_interpreter = *(Interpreter *)interpreter;
-
-        pTerm *term;
-        auto str = std::string(word);
-        if (_interpreter.check_by_name(str) > 0)
-        {
-            auto key = _interpreter.get_by_name(str);
-            term = (pTerm *)_interpreter.get_object(key);
-            // std::cout << "create Term " << (size_t)term << std::endl;
-        }
-        else
-        {
-            term = new pTerm(new Term(), &_interpreter);
-            _interpreter.put((*term)->hash_value, str, (void *)term);
-        }
-        return *term;
-    }
-
-    void pTerm::_free_from_interpreter()
-    {
-        auto &interpreter = *(Interpreter *)this->_interpreter;
-        const auto &term = **this;
-        interpreter.remove(term.hash_value);
-    }
-
-    std::string pTerm::__repr__(void *interpreter) const
-    {
-        std::string mark;
-        if ((*this)->is_atom())
-        {
-            if ((*this)->is_var)
-                mark = "Variable";
-            else
-                mark = "Term";
-        }
-        else if ((*this)->is_statement())
-            mark = "Statement";
-        else if ((*this)->is_compound())
-            mark = "Compound";
-        else
-            throw std::runtime_error("Unknown type of the term.");
-
-        if (interpreter == nullptr)
-        {
-            if (this->_interpreter == nullptr)
-                return fmt::format("<{} at {:x}>", mark, (size_t)this->get());
-            else
-                interpreter = this->_interpreter;
-        }
-        auto &_interpreter = *(Interpreter *)interpreter;
-
-        return fmt::format("<{}: {}>", mark, _interpreter.interpret(**this));
-    }
-
-    void pybind_term(py::module &m)
-    {
-        py::class_<pTerm>(m, "Term")
-            .def(py::init(
-                []()
-                {
-                    return TERM::Term::create();
-                }))
-            .def(py::init(
-                [](std::string word)
-                {
-                    return TERM::Term::create((char *)word.c_str(), nullptr);
-                }))
-            .def_property_readonly(
-                "subject",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->subject == nullptr)
-                        return py::none();
-                    return py::cast(self->subject);
-                })
-            .def_property_readonly(
-                "predicate",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->predicate == nullptr)
-                        return py::none();
-                    return py::cast(self->predicate);
-                })
-            .def_property_readonly(
-                "terms",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->is_atom())
-                        return py::none();
-                    else if (self->is_statement())
-                        return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
-                    else if (self->is_compound())
-                        return py::make_iterator(self->terms->begin(), self->terms->end());
-                    else
-                    {
-                        PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-                        return py::none();
-                    }
-                })
-            .def_property_readonly(
-                "copula",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->copula == Copula::None)
-                        return py::none();
-                    return py::cast(self->copula);
-                })
-            .def("__repr__", [](const pTerm &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
-            });
-    }
-
-    void pybind_terms(py::module &m)
-    {
-    }
-
-}
+#include "../include/Term.h"
+#include "../include/Copula.h"
+#include "../include/Term.inl"
+#include "Interpreter/include/Interpreter.hpp"
+#include "utils/hash.h"
+#include <list>
+#include <pybind11/stl.h>
+#include <string>
+#include <vector>
+
+// using namespace TERM;
+using INTERPRETER::Interpreter;
+using std::string;
+using TERM::pTerm;
+
+namespace TERM
+{
+    pTerm Term::create(const char *word, void *interpreter)
+    {
+        if (interpreter == nullptr)
+        {
+            interpreter = &INTERPRETER::interpreter;
+        }
+        auto &_interpreter = *(Interpreter *)interpreter;
+
+        pTerm *term;
+        auto str = std::string(word);
+        if (_interpreter.check_by_name(str) > 0)
+        {
+            auto key = _interpreter.get_by_name(str);
+            term = (pTerm *)_interpreter.get_object(key);
+            // std::cout << "create Term " << (size_t)term << std::endl;
+        }
+        else
+        {
+            term = new pTerm(new Term(), &_interpreter);
+            _interpreter.put((*term)->hash_value, str, (void *)term);
+        }
+        return *term;
+    }
+
+    void pTerm::_free_from_interpreter()
+    {
+        auto &interpreter = *(Interpreter *)this->_interpreter;
+        const auto &term = **this;
+        interpreter.remove(term.hash_value);
+    }
+
+    std::string pTerm::__repr__(void *interpreter) const
+    {
+        std::string mark;
+        if ((*this)->is_atom())
+        {
+            if ((*this)->is_var)
+                mark = "Variable";
+            else
+                mark = "Term";
+        }
+        else if ((*this)->is_statement())
+            mark = "Statement";
+        else if ((*this)->is_compound())
+            mark = "Compound";
+        else
+            throw std::runtime_error("Unknown type of the term.");
+
+        if (interpreter == nullptr)
+        {
+            if (this->_interpreter == nullptr)
+                return fmt::format("<{} at {:x}>", mark, (size_t)this->get());
+            else
+                interpreter = this->_interpreter;
+        }
+        auto &_interpreter = *(Interpreter *)interpreter;
+
+        return fmt::format("<{}: {}>", mark, _interpreter.interpret(**this));
+    }
+
+    void pybind_term(py::module &m)
+    {
+        py::class_<pTerm>(m, "Term")
+            .def(py::init(
+                []()
+                {
+                    return TERM::Term::create();
+                }))
+            .def(py::init(
+                [](std::string word)
+                {
+                    return TERM::Term::create((char *)word.c_str(), nullptr);
+                }))
+            .def_property_readonly(
+                "subject",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->subject == nullptr)
+                        return py::none();
+                    return py::cast(self->subject);
+                })
+            .def_property_readonly(
+                "predicate",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->predicate == nullptr)
+                        return py::none();
+                    return py::cast(self->predicate);
+                })
+            .def_property_readonly(
+                "terms",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->is_atom())
+                        return py::none();
+                    else if (self->is_statement())
+                        return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
+                    else if (self->is_compound())
+                        return py::make_iterator(self->terms->begin(), self->terms->end());
+                    else
+                    {
+                        PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
+                        return py::none();
+                    }
+                })
+            .def_property_readonly(
+                "copula",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->copula == Copula::None)
+                        return py::none();
+                    return py::cast(self->copula);
+                })
+            .def("__repr__", [](const pTerm &self){
+                return self.__repr__((void *)&INTERPRETER::interpreter);
+            });
+    }
+
+    void pybind_terms(py::module &m)
+    {
+    }
+
+}
-- 
2.43.0


From fb7a3bff22391e11d9566ac7280e1c9e27975663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 16/40] fix: do not truncate the projection decay to an integer

---
 NAL/Functions/include/TemporalFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NAL/Functions/include/TemporalFunctions.h b/NAL/Functions/include/TemporalFunctions.h
index 86b2529..cd5b156 100644
--- a/NAL/Functions/include/TemporalFunctions.h
+++ b/NAL/Functions/include/TemporalFunctions.h
@@ -11,7 +11,7 @@ namespace TEMPORAL_FUNCTIONS
     inline auto project(pTruth truth, int64_t t_source, int64_t t_current, int64_t t_target, size_t decay_duration = 1000)
     {
         auto d = (abs(t_source - t_current) + abs(t_target - t_current)) + decay_duration;
-        auto k_c = d > 0 ? abs(t_source - t_target) / d : 0;
+        double k_c = d > 0 ? (double)abs(t_source - t_target) / d : 0;
         auto c_new = (1 - k_c) * truth->c;
         return Truth::create(truth->f, c_new, truth->k);
     }
-- 
2.43.0


From 154bfdb085d00dae04230ece37053314882f9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 17/40] fix: return copulas from symmetrize and reverse

---
 Narsese/include/Copula.h | 114 +++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/Narsese/include/Copula.h b/Narsese/include/Copula.h
index f6bf5d3..84b8730 100755
--- a/Narsese/include/Copula.h
+++ b/Narsese/include/Copula.h
@@ -1,58 +1,58 @@
-#ifndef _COPULA_H
-#define _COPULA_H
-
-#include <pybind11/pybind11.h>
-#include <string>
-
-namespace COPULA
-{
-    namespace py = pybind11;
-    using string = std::string;
-    enum PYBIND11_EXPORT Copula
-    {
-        None = -1,
-        Inheritance = 0,              // -->
-        Similarity = 1,               // <->
-        Instance = 2,                 // {--
-        Property = 3,                 // --]
-        InstanceProperty = 4,         // {-]
-        Implication = 5,              // ==>
-        PredictiveImplication = 6,    // =/>
-        ConcurrentImplication = 7,    // =|>
-        RetrospectiveImplication = 8, // =\>
-        Equivalence = 9,              // <=>
-        PredictiveEquivalence = 10,   // </>
-        ConcurrentEquivalence = 11    // <|>
-    };
-    const Copula INHERITANCE = Copula::Inheritance;
-    const Copula SIMILARITY = Copula::Similarity;
-    const Copula INSTANCE = Copula::Instance;
-    const Copula PROPERTY = Copula::Property;
-    const Copula INSTANCEPROPERTY = Copula::InstanceProperty;
-    const Copula IMPLICATION = Copula::Implication;
-    const Copula PREDICTIVEIMPLICATION = Copula::PredictiveImplication;
-    const Copula CONCURRENTIMPLICATION = Copula::ConcurrentImplication;
-    const Copula RETROSPECTIVEIMPLICATION = Copula::RetrospectiveImplication;
-    const Copula EQUIVALENCE = Copula::Equivalence;
-    const Copula PREDICTIVEEQUIVALENCE = Copula::PredictiveEquivalence;
-    const Copula CONCURRENTEQUIVALENCE = Copula::ConcurrentEquivalence;
-
-    const string Repr[] = {string("-->"), string("<->"), string("{--"), string("--]"), string("{-]"), string("==>"), string("=/>"), string("=|>"), string("=\\>"), string("<=>"), string("</>"), string("<|>")};
-
-    const bool _commutative[] = {false, true, false, false, false, false, false, false, false, true, false, true};
-    const bool _higher_order[] = {false, false, false, false, false, true, true, true, true, true, true, true};
-    const bool _temporal[] = {false, false, false, false, false, false, true, true, true, false, true, true};
-    const Copula _symmetrize[] = {Similarity, Similarity, None, None, None, Equivalence, PredictiveEquivalence, ConcurrentEquivalence, None, Equivalence, PredictiveEquivalence, ConcurrentEquivalence};
-    const Copula _reverse[] = {None, None, None, None, None, None, RetrospectiveImplication, ConcurrentImplication, PredictiveImplication, None, None, ConcurrentEquivalence};
-
-    inline bool is_commutative(Copula copula) { return _commutative[copula]; }
-    inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
-    inline bool is_temporal(Copula copula) { return _temporal[copula]; }
-    inline bool symmetrize(Copula copula) { return _symmetrize[copula]; }
-    inline bool reverse(Copula copula) { return _reverse[copula]; }
-
-    void pybind_copula(py::module &m);
-
-} // namespace Copula
-
+#ifndef _COPULA_H
+#define _COPULA_H
+
+#include <pybind11/pybind11.h>
+#include <string>
+
+namespace COPULA
+{
+    namespace py = pybind11;
+    using string = std::string;
+    enum PYBIND11_EXPORT Copula
+    {
+        None = -1,
+        Inheritance = 0,              // -->
+        Similarity = 1,               // <->
+        Instance = 2,                 // {--
+        Property = 3,                 // --]
+        InstanceProperty = 4,         // {-]
+        Implication = 5,              // ==>
+        PredictiveImplication = 6,    // =/>
+        ConcurrentImplication = 7,    // =|>
+        RetrospectiveImplication = 8, // =\>
+        Equivalence = 9,              // <=>
+        PredictiveEquivalence = 10,   // </>
+        ConcurrentEquivalence = 11    // <|>
+    };
+    const Copula INHERITANCE = Copula::Inheritance;
+    const Copula SIMILARITY = Copula::Similarity;
+    const Copula INSTANCE = Copula::Instance;
+    const Copula PROPERTY = Copula::Property;
+    const Copula INSTANCEPROPERTY = Copula::InstanceProperty;
+    const Copula IMPLICATION = Copula::Implication;
+    const Copula PREDICTIVEIMPLICATION = Copula::PredictiveImplication;
+    const Copula CONCURRENTIMPLICATION = Copula::ConcurrentImplication;
+    const Copula RETROSPECTIVEIMPLICATION = Copula::RetrospectiveImplication;
+    const Copula EQUIVALENCE = Copula::Equivalence;
+    const Copula PREDICTIVEEQUIVALENCE = Copula::PredictiveEquivalence;
+    const Copula CONCURRENTEQUIVALENCE = Copula::ConcurrentEquivalence;
+
+    const string Repr[] = {string("-->"), string("<->"), string("{--"), string("--]"), string("{-]"), string("==>"), string("=/>"), string("=|>"), string("=\\>"), string("<=>"), string("</>"), string("<|>")};
+
+    const bool _commutative[] = {false, true, false, false, false, false, false, false, false, true, false, true};
+    const bool _higher_order[] = {false, false, false, false, false, true, true, true, true, true, true, true};
+    const bool _temporal[] = {false, false, false, false, false, false, true, true, true, false, true, true};
+    const Copula _symmetrize[] = {Similarity, Similarity, None, None, None, Equivalence, PredictiveEquivalence, ConcurrentEquivalence, None, Equivalence, PredictiveEquivalence, ConcurrentEquivalence};
+    const Copula _reverse[] = {None, None, None, None, None, None, RetrospectiveImplication, ConcurrentImplication, PredictiveImplication, None, None, ConcurrentEquivalence};
+
+    inline bool is_commutative(Copula copula) { return _commutative[copula]; }
+    inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
+    inline bool is_temporal(Copula copula) { return _temporal[copula]; }
+    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
+    inline Copula reverse(Copula copula) { return _reverse[copula]; }
+
+    void pybind_copula(py::module &m);
+
+} // namespace Copula
+
 #endif // _COPULA_H
\ No newline at end of file
-- 
2.43.0


From 7ec3c69ddb90cb8c3842237affde57577ba2da6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 18/40] fix: keep exactly the evidence of both bases when
 merging them

---
 Narsese/include/Evidence.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b96dd73..9c99836 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -32,10 +32,11 @@ namespace EVIDENCE
 
         void extend(const Base &other)
         {
-            auto base1 = Base(*this);
+            auto base1 = Base(*this->_set);
             auto &base2 = other;
             this->_set->clear();
             Base::interleave(*this, base1, base2);
+            this->_is_hashed = false;
         }
 
         static void interleave(Base &base, const Base &base1, const Base &base2)
@@ -63,7 +64,7 @@ namespace EVIDENCE
 
         static auto interleave(const Base &base1, const Base &base2)
         {
-            auto base = pBase(new Base());
+            auto base = pBase(new Base(set<size_t>()));
             Base::interleave(*base, base1, base2);
             return base;
         }
-- 
2.43.0


From e62bcd8fe684e8bf6800c62c2d7039bb72dfae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 19/40] fix: rehash an interval that changes

---
 Narsese/include/Interval.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Interval.h b/Narsese/include/Interval.h
index 3dd0cc7..551af32 100755
--- a/Narsese/include/Interval.h
+++ b/Narsese/include/Interval.h
@@ -40,6 +40,7 @@ namespace INTERVAL
         Interval &operator+=(const Interval &other)
         {
             interval += other.interval;
+            this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});
             return *this;
         }
     };
-- 
2.43.0


From 806f46641306edaf855c3b05fcc50726f317eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 20/40] fix: grow the parser stack before it is full

---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 24d113f..a5a3e2f 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -178,7 +178,7 @@ bool _parser::alloc_stack( void )
 
 		this->stacksize = UNICC_MALLOCSTEP;
 	}
-	else if( ( this->tos - this->stack ) == this->stacksize )
+	else if( ( this->tos - this->stack ) + 1 >= this->stacksize )
 	{
 		size_t			size = ( this->tos - this->stack );
 		_tok*	ptr;
@@ -798,6 +798,9 @@ int _parser::parse( void )
 
 			this->get_go();
 
+			if( !this->alloc_stack() )
+				return (int)NULL;
+
 			this->tos++;
 			this->tos->node = NULL;
 
-- 
2.43.0


From 4b74cde7934bb4c172bca2e1202000acd228c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 21/40] fix: find grammar actions by name instead of by literal
 address

---
 Narsese/Parser/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 5ba51b6..fa3117b 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -25,7 +25,7 @@ namespace PARSER
     {
     public:
         /* function mappings from name to pointer */
-        std::unordered_map<const char *, long> _map;
+        std::unordered_map<std::string, long> _map;
 
         /* variable mappings from name to index */
         std::unordered_map<std::string, long> names_ivar;
-- 
2.43.0


From dbda0ef9a0d8dcf1895a34d101f020f68285851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 22/40] fix: pass an empty argument list to actions without
 arguments

---
 Narsese/Parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index 6285f48..ea04aa1 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -102,7 +102,7 @@ Args *Parser::transform(_ast *node)
             auto fptr = this->get_function(name);
             if (fptr != 0)
             {
-                ret = ((METHOD)fptr)(this, *ret_args);
+                ret = ((METHOD)fptr)(this, ret_args != nullptr ? *ret_args : Args());
             }
             if (ret_args != nullptr)
             {
-- 
2.43.0


From 5197a87afcdc3d4f788d98dd821f4c7b12dc3e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:09 +0000
Subject: [PATCH 23/40] fix: treat only executions as operation statements

---
 Narsese/include/Statement.inl | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Narsese/include/Statement.inl b/Narsese/include/Statement.inl
index f559a38..33a2f2e 100644
--- a/Narsese/include/Statement.inl
+++ b/Narsese/include/Statement.inl
@@ -23,8 +23,6 @@ namespace STATEMENT
         // components = unordered_set<Term*>{&subject, &predicate};
 
         this->is_higher_order = COPULA::is_higher_order(copula);
-        this->is_operation = _predicate->is_operation;
-
         if (this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
             this->is_operation = true;
 
-- 
2.43.0


From 9726e59e9cbd8b997ce239d93bcf3ff6a004451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:09 +0000
Subject: [PATCH 24/40] fix: never interpret a copula or connector as a format
 string

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 55a2ca1..2b817b1 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -127,7 +127,7 @@ string Interpreter::interpret(Term &term, bool colored)
                 auto str1 = fmt::format(color_angle, "<");
                 // auto str2 = fmt::format(color_term, str_subject);
                 auto str2 = fmt::format(fmt::format(color_term, "{{}}"), str_subject);
-                auto str3 = fmt::format(color_copula, str_copula);
+                auto str3 = fmt::format(color_copula, "{}", str_copula);
                 // auto str4 = fmt::format(color_term, str_predicate);
                 auto str4 = fmt::format(fmt::format(color_term, "{{}}"), str_predicate);
                 auto str5 = fmt::format(color_angle, ">");
@@ -180,7 +180,7 @@ string Interpreter::interpret(Term &term, bool colored)
             }
             else
             {
-                ss << fmt::format(color_parenthesis, "(") << fmt::format(color_connector, str_conn) << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << fmt::format(color_connector, "{}", str_conn) << fmt::format(color_seperator, ", ");
                 append_strs(ss, components);
                 ss << fmt::format(color_parenthesis, ")");
             }
-- 
2.43.0


From 4143cd959b3bf987b41d388b03093e593333364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:09 +0000
Subject: [PATCH 25/40] fix: drop cached normal forms when variable indices are
 rebuilt

---
 utils/IndexVar.cpp | 312 +++++++++++++++++++++++----------------------
 1 file changed, 157 insertions(+), 155 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c9f7293..027a018 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -1,156 +1,158 @@
-#include "IndexVar.h"
-#include <memory>
-#include <unordered_map>
-#include <map>
-#include <set>
-#include <unordered_set>
-#include <vector>
-#include "./hash.h"
-
-using std::vector;
-
-using namespace INDEXVAR;
-using UTILS::hash;
-
-/* Helper Functions */
-
-inline std::shared_ptr<vector<int>> _normalize(const vector<int> &variables)
-{
-    std::set<int> p1(variables.begin(), variables.end());
-    vector<int> p2(p1.begin(), p1.end());
-
-    std::map<int, int> mapping;
-    for (std::size_t i = 0; i < p2.size(); ++i)
-    {
-        mapping[p2[i]] = i;
-    }
-
-    auto result = std::make_shared<vector<int>>();
-    for (const auto &p : variables)
-    {
-        result->push_back(mapping[p]);
-    }
-
-    return result;
-}
-
-inline std::shared_ptr<vector<int>> _normalize(const vector<pInt> &indices)
-{
-    std::vector<int> variables;
-    for (const auto &var : indices)
-    {
-        variables.push_back(*var);
-    }
-
-    return _normalize(variables);
-}
-
-/* IndexVar */
-
-std::shared_ptr<vector<int>> IndexVar::normalize()
-{
-    /*
-    normalize the index, so that the index is unique in terms of one statement which has variable(s).
-    */
-    if (this->_indices_normalized == nullptr)
-    {
-        this->_indices_normalized = _normalize(this->indices);
-    }
-
-    return this->_indices_normalized;
-}
-
-void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
-{
-    father->_is_hashed = false;
-    father->_is_built = false;
-    father->_indices_normalized = nullptr;
-
-    father->successors.push_back(son);
-    son->predecessor = father;
-
-    if (!generate_pos)
-        return;
-
-    int bias_pos = father->successors.size() - 1;
-    auto &indices = son->indices;
-    std::vector<std::vector<int>> positions;
-    for (const auto &pos : son->positions)
-    {
-        std::vector<int> position = {bias_pos};
-        position.insert(position.end(), pos.begin(), pos.end());
-        positions.push_back(position);
-    }
-    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
-    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
-    father->indices.insert(father->indices.end(), indices.begin(), indices.end());
-    father->positions.insert(father->positions.end(), positions.begin(), positions.end());
-}
-
-void IndexVar::build(bool rebuild)
-{
-    if (!rebuild && this->_is_built)
-        return;
-
-    if (successors.size() > 0)
-    {
-        indices.clear();
-        positions.clear();
-    }
-
-    for (int bias_pos = 0; bias_pos < successors.size(); bias_pos++)
-    {
-        successors[bias_pos]->build(rebuild);
-        auto &_indices = successors[bias_pos]->indices;
-        std::vector<std::vector<int>> positions;
-        for (const auto &pos : successors[bias_pos]->positions)
-        {
-            std::vector<int> position = {(int)(bias_pos)};
-            position.insert(position.end(), pos.begin(), pos.end());
-            positions.push_back(position);
-        }
-        this->indices.insert(this->indices.end(), _indices.begin(), _indices.end());
-        this->positions.insert(this->positions.end(), positions.begin(), positions.end());
-    }
-
-    this->_is_built = true;
-    this->_hash_value = hash(*this);
-}
-
-pInt IndexVar::add(int idx, const std::vector<int> &position)
-{
-    auto iv = pInt(new int(idx));
-    // this->_is_built = false;
-    this->_is_hashed = false;
-    this->_indices_normalized = nullptr;
-
-    if (position.empty())
-    {
-        positions.clear();
-        indices.clear();
-    }
-
-    IndexVar *idxvar = this;
-    for (int pos : position)
-    {
-        idxvar = idxvar->successors[pos].get();
-    }
-    idxvar->positions.push_back(std::vector<int>());
-    idxvar->indices.push_back(iv);
-
-    return iv;
-}
-
-void IndexVar::remove(const std::vector<int> &position)
-{
-    this->_is_hashed = false;
-    this->_indices_normalized = nullptr;
-    
-    IndexVar *index = this;
-    for (int pos : position)
-    {
-        index = index->successors[pos].get();
-    }
-    index->indices.clear();
-    index->positions.clear();
+#include "IndexVar.h"
+#include <memory>
+#include <unordered_map>
+#include <map>
+#include <set>
+#include <unordered_set>
+#include <vector>
+#include "./hash.h"
+
+using std::vector;
+
+using namespace INDEXVAR;
+using UTILS::hash;
+
+/* Helper Functions */
+
+inline std::shared_ptr<vector<int>> _normalize(const vector<int> &variables)
+{
+    std::set<int> p1(variables.begin(), variables.end());
+    vector<int> p2(p1.begin(), p1.end());
+
+    std::map<int, int> mapping;
+    for (std::size_t i = 0; i < p2.size(); ++i)
+    {
+        mapping[p2[i]] = i;
+    }
+
+    auto result = std::make_shared<vector<int>>();
+    for (const auto &p : variables)
+    {
+        result->push_back(mapping[p]);
+    }
+
+    return result;
+}
+
+inline std::shared_ptr<vector<int>> _normalize(const vector<pInt> &indices)
+{
+    std::vector<int> variables;
+    for (const auto &var : indices)
+    {
+        variables.push_back(*var);
+    }
+
+    return _normalize(variables);
+}
+
+/* IndexVar */
+
+std::shared_ptr<vector<int>> IndexVar::normalize()
+{
+    /*
+    normalize the index, so that the index is unique in terms of one statement which has variable(s).
+    */
+    if (this->_indices_normalized == nullptr)
+    {
+        this->_indices_normalized = _normalize(this->indices);
+    }
+
+    return this->_indices_normalized;
+}
+
+void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
+{
+    father->_is_hashed = false;
+    father->_is_built = false;
+    father->_indices_normalized = nullptr;
+
+    father->successors.push_back(son);
+    son->predecessor = father;
+
+    if (!generate_pos)
+        return;
+
+    int bias_pos = father->successors.size() - 1;
+    auto &indices = son->indices;
+    std::vector<std::vector<int>> positions;
+    for (const auto &pos : son->positions)
+    {
+        std::vector<int> position = {bias_pos};
+        position.insert(position.end(), pos.begin(), pos.end());
+        positions.push_back(position);
+    }
+    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
+    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
+    father->indices.insert(father->indices.end(), indices.begin(), indices.end());
+    father->positions.insert(father->positions.end(), positions.begin(), positions.end());
+}
+
+void IndexVar::build(bool rebuild)
+{
+    if (!rebuild && this->_is_built)
+        return;
+
+    if (successors.size() > 0)
+    {
+        indices.clear();
+        positions.clear();
+    }
+
+    for (int bias_pos = 0; bias_pos < successors.size(); bias_pos++)
+    {
+        successors[bias_pos]->build(rebuild);
+        auto &_indices = successors[bias_pos]->indices;
+        std::vector<std::vector<int>> positions;
+        for (const auto &pos : successors[bias_pos]->positions)
+        {
+            std::vector<int> position = {(int)(bias_pos)};
+            position.insert(position.end(), pos.begin(), pos.end());
+            positions.push_back(position);
+        }
+        this->indices.insert(this->indices.end(), _indices.begin(), _indices.end());
+        this->positions.insert(this->positions.end(), positions.begin(), positions.end());
+    }
+
+    this->_is_built = true;
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
+    this->_hash_value = hash(*this);
+}
+
+pInt IndexVar::add(int idx, const std::vector<int> &position)
+{
+    auto iv = pInt(new int(idx));
+    // this->_is_built = false;
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
+
+    if (position.empty())
+    {
+        positions.clear();
+        indices.clear();
+    }
+
+    IndexVar *idxvar = this;
+    for (int pos : position)
+    {
+        idxvar = idxvar->successors[pos].get();
+    }
+    idxvar->positions.push_back(std::vector<int>());
+    idxvar->indices.push_back(iv);
+
+    return iv;
+}
+
+void IndexVar::remove(const std::vector<int> &position)
+{
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
+    
+    IndexVar *index = this;
+    for (int pos : position)
+    {
+        index = index->successors[pos].get();
+    }
+    index->indices.clear();
+    index->positions.clear();
 }
\ No newline at end of file
-- 
2.43.0


From b0479bc43d99383f010afea82819be3cbdcea694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:09 +0000
Subject: [PATCH 26/40] fix: do not duplicate a part's variable indices when
 connecting with positions

---
 utils/IndexVar.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index 027a018..dd58750 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -81,8 +81,6 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         position.insert(position.end(), pos.begin(), pos.end());
         positions.push_back(position);
     }
-    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
-    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
     father->indices.insert(father->indices.end(), indices.begin(), indices.end());
     father->positions.insert(father->positions.end(), positions.begin(), positions.end());
 }
-- 
2.43.0


From bc00be7a189dbec436e149363828a152fd2f598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:09 +0000
Subject: [PATCH 27/40] fix: release every table entry when the symbol table is
 reset

---
 Interpreter/include/Interpreter.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index 4f23977..4ef6cec 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -149,19 +149,16 @@ namespace INTERPRETER
 
         void reset()
         {
-
-            for (auto pair : objects)
-            {
-                auto ptr = pair.second;
-                if ((*ptr).use_count() == 1)
-                {
-                    delete ptr;
-                }
-            }
+            /* Forget the entries first, so that a term released below does not remove its entry again. */
+            auto released = std::move(objects);
             objects.clear();
             dictionary.clear();
             dictionary_inv.clear();
             count.clear();
+            for (auto &pair : released)
+            {
+                delete pair.second;
+            }
         }
 
         ~Interpreter()
-- 
2.43.0


From 3046732489de006a3000a4dde547df6baf042c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:09 +0000
Subject: [PATCH 28/40] fix: keep a commutative compound without components
 empty

---
 Narsese/src/Compound.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 09082b3..5436835 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -203,6 +203,10 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
             terms_norm.push_back({connector, terms_merged});
         }
 
+        /* Nothing to normalize. */
+        if (terms_norm.empty())
+            return {connector_parent, terms};
+
         /* Step 3. */
         if (terms_norm.size() > 1)
         {
-- 
2.43.0


From 0acd5a66919a90b3da88a146e0d7f803236d9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 29/40] fix: render a compound without components

---
 Interpreter/src/Interpreter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 2b817b1..6df8c12 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -161,7 +161,6 @@ string Interpreter::interpret(Term &term, bool colored)
         auto &cmpd = (Compound &)term;
         auto &components = cmpd.components();
         auto str_conn = CONNECTOR::Repr[(int)cmpd.connector];
-        auto last_it = components.end() - 1;
 
         if (colored)
         {
-- 
2.43.0


From d3fcf35fa27f4ee030e637edb7c3480b3d0c5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 30/40] fix: render an operation without arguments in the
 written syntax

---
 Interpreter/src/Interpreter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 6df8c12..3c85aa2 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -142,13 +142,17 @@ string Interpreter::interpret(Term &term, bool colored)
             auto &cmpd = (Compound &)*stat.subject;
             if (colored)
             {
-                ss << fmt::format(color_parenthesis, "(") << str_op << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << str_op;
+                if (cmpd.terms->size() > 0)
+                    ss << fmt::format(color_seperator, ", ");
                 append_strs(ss, cmpd.components());
                 ss << fmt::format(color_parenthesis, ")");
             }
             else
             {
-                ss << "(" << str_op << ", ";
+                ss << "(" << str_op;
+                if (cmpd.terms->size() > 0)
+                    ss << ", ";
                 append_strs(ss, cmpd.components());
                 ss << ")";
             }
-- 
2.43.0


From 6d76a0dc661e747c801c2c7cf3a002cb4c49569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:17 +0000
Subject: [PATCH 31/40] fix: normal form of variable indices depended on the
 variables' numbers

---
 utils/IndexVar.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index dd58750..380bc15 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -16,13 +16,11 @@ using UTILS::hash;
 
 inline std::shared_ptr<vector<int>> _normalize(const vector<int> &variables)
 {
-    std::set<int> p1(variables.begin(), variables.end());
-    vector<int> p2(p1.begin(), p1.end());
-
+    // Number the variables in the order of their first occurrence, so that renaming them makes no difference.
     std::map<int, int> mapping;
-    for (std::size_t i = 0; i < p2.size(); ++i)
+    for (const auto &p : variables)
     {
-        mapping[p2[i]] = i;
+        mapping.emplace(p, (int)mapping.size());
     }
 
     auto result = std::make_shared<vector<int>>();
-- 
2.43.0


From 3bcffcffb1d73707b1810884c6823335e43c167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:17 +0000
Subject: [PATCH 32/40] fix: adding or removing a variable at a position left
 stale caches in the parts

---
 utils/IndexVar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index 380bc15..98d31dc 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -132,6 +132,8 @@ pInt IndexVar::add(int idx, const std::vector<int> &position)
     for (int pos : position)
     {
         idxvar = idxvar->successors[pos].get();
+        idxvar->_is_hashed = false;
+        idxvar->_indices_normalized = nullptr;
     }
     idxvar->positions.push_back(std::vector<int>());
     idxvar->indices.push_back(iv);
@@ -148,6 +150,8 @@ void IndexVar::remove(const std::vector<int> &position)
     for (int pos : position)
     {
         index = index->successors[pos].get();
+        index->_is_hashed = false;
+        index->_indices_normalized = nullptr;
     }
     index->indices.clear();
     index->positions.clear();
-- 
2.43.0


From 0f3a88cac265567d9a285853bb4f8113bd21d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 33/40] fix: restore the line endings of files touched by
 earlier repairs

---
 Global.h                  |   34 +-
 Narsese/include/Copula.h  |  114 ++---
 Narsese/include/Term.h    | 1024 ++++++++++++++++++-------------------
 Narsese/src/Compound.cpp  |  704 ++++++++++++-------------
 Narsese/src/Connector.cpp |   54 +-
 Narsese/src/Statement.cpp |   56 +-
 Narsese/src/Term.cpp      |  280 +++++-----
 utils/IndexVar.cpp        |  314 ++++++------
 8 files changed, 1290 insertions(+), 1290 deletions(-)

diff --git a/Global.h b/Global.h
index 923683e..26f84c2 100755
--- a/Global.h
+++ b/Global.h
@@ -1,18 +1,18 @@
-#ifndef _GLOBAL_H
-#define _GLOBAL_H
-
-namespace GLOBAL
-{
-    inline unsigned long time = 0;
-    inline unsigned long _input_id = 0;
-
-    inline unsigned long get_input_id()
-    {
-        auto input_id = _input_id;
-        _input_id += 1;
-        return input_id;
-    }
-
-} // namespace GLOBAL
-
+#ifndef _GLOBAL_H
+#define _GLOBAL_H
+
+namespace GLOBAL
+{
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
+
+    inline unsigned long get_input_id()
+    {
+        auto input_id = _input_id;
+        _input_id += 1;
+        return input_id;
+    }
+
+} // namespace GLOBAL
+
 #endif // _GLOBAL_H
\ No newline at end of file
diff --git a/Narsese/include/Copula.h b/Narsese/include/Copula.h
index 84b8730..e32dfcc 100755
--- a/Narsese/include/Copula.h
+++ b/Narsese/include/Copula.h
@@ -1,58 +1,58 @@
-#ifndef _COPULA_H
-#define _COPULA_H
-
-#include <pybind11/pybind11.h>
-#include <string>
-
-namespace COPULA
-{
-    namespace py = pybind11;
-    using string = std::string;
-    enum PYBIND11_EXPORT Copula
-    {
-        None = -1,
-        Inheritance = 0,              // -->
-        Similarity = 1,               // <->
-        Instance = 2,                 // {--
-        Property = 3,                 // --]
-        InstanceProperty = 4,         // {-]
-        Implication = 5,              // ==>
-        PredictiveImplication = 6,    // =/>
-        ConcurrentImplication = 7,    // =|>
-        RetrospectiveImplication = 8, // =\>
-        Equivalence = 9,              // <=>
-        PredictiveEquivalence = 10,   // </>
-        ConcurrentEquivalence = 11    // <|>
-    };
-    const Copula INHERITANCE = Copula::Inheritance;
-    const Copula SIMILARITY = Copula::Similarity;
-    const Copula INSTANCE = Copula::Instance;
-    const Copula PROPERTY = Copula::Property;
-    const Copula INSTANCEPROPERTY = Copula::InstanceProperty;
-    const Copula IMPLICATION = Copula::Implication;
-    const Copula PREDICTIVEIMPLICATION = Copula::PredictiveImplication;
-    const Copula CONCURRENTIMPLICATION = Copula::ConcurrentImplication;
-    const Copula RETROSPECTIVEIMPLICATION = Copula::RetrospectiveImplication;
-    const Copula EQUIVALENCE = Copula::Equivalence;
-    const Copula PREDICTIVEEQUIVALENCE = Copula::PredictiveEquivalence;
-    const Copula CONCURRENTEQUIVALENCE = Copula::ConcurrentEquivalence;
-
-    const string Repr[] = {string("-->"), string("<->"), string("{--"), string("--]"), string("{-]"), string("==>"), string("=/>"), string("=|>"), string("=\\>"), string("<=>"), string("</>"), string("<|>")};
-
-    const bool _commutative[] = {false, true, false, false, false, false, false, false, false, true, false, true};
-    const bool _higher_order[] = {false, false, false, false, false, true, true, true, true, true, true, true};
-    const bool _temporal[] = {false, false, false, false, false, false, true, true, true, false, true, true};
-    const Copula _symmetrize[] = {Similarity, Similarity, None, None, None, Equivalence, PredictiveEquivalence, ConcurrentEquivalence, None, Equivalence, PredictiveEquivalence, ConcurrentEquivalence};
-    const Copula _reverse[] = {None, None, None, None, None, None, RetrospectiveImplication, ConcurrentImplication, PredictiveImplication, None, None, ConcurrentEquivalence};
-
-    inline bool is_commutative(Copula copula) { return _commutative[copula]; }
-    inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
-    inline bool is_temporal(Copula copula) { return _temporal[copula]; }
-    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
-    inline Copula reverse(Copula copula) { return _reverse[copula]; }
-
-    void pybind_copula(py::module &m);
-
-} // namespace Copula
-
+#ifndef _COPULA_H
+#define _COPULA_H
+
+#include <pybind11/pybind11.h>
+#include <string>
+
+namespace COPULA
+{
+    namespace py = pybind11;
+    using string = std::string;
+    enum PYBIND11_EXPORT Copula
+    {
+        None = -1,
+        Inheritance = 0,              // -->
+        Similarity = 1,               // <->
+        Instance = 2,                 // {--
+        Property = 3,                 // --]
+        InstanceProperty = 4,         // {-]
+        Implication = 5,              // ==>
+        PredictiveImplication = 6,    // =/>
+        ConcurrentImplication = 7,    // =|>
+        RetrospectiveImplication = 8, // =\>
+        Equivalence = 9,              // <=>
+        PredictiveEquivalence = 10,   // </>
+        ConcurrentEquivalence = 11    // <|>
+    };
+    const Copula INHERITANCE = Copula::Inheritance;
+    const Copula SIMILARITY = Copula::Similarity;
+    const Copula INSTANCE = Copula::Instance;
+    const Copula PROPERTY = Copula::Property;
+    const Copula INSTANCEPROPERTY = Copula::InstanceProperty;
+    const Copula IMPLICATION = Copula::Implication;
+    const Copula PREDICTIVEIMPLICATION = Copula::PredictiveImplication;
+    const Copula CONCURRENTIMPLICATION = Copula::ConcurrentImplication;
+    const Copula RETROSPECTIVEIMPLICATION = Copula::RetrospectiveImplication;
+    const Copula EQUIVALENCE = Copula::Equivalence;
+    const Copula PREDICTIVEEQUIVALENCE = Copula::PredictiveEquivalence;
+    const Copula CONCURRENTEQUIVALENCE = Copula::ConcurrentEquivalence;
+
+    const string Repr[] = {string("-->"), string("<->"), string("{--"), string("--]"), string("{-]"), string("==>"), string("=/>"), string("=|>"), string("=\\>"), string("<=>"), string("</>"), string("<|>")};
+
+    const bool _commutative[] = {false, true, false, false, false, false, false, false, false, true, false, true};
+    const bool _higher_order[] = {false, false, false, false, false, true, true, true, true, true, true, true};
+    const bool _temporal[] = {false, false, false, false, false, false, true, true, true, false, true, true};
+    const Copula _symmetrize[] = {Similarity, Similarity, None, None, None, Equivalence, PredictiveEquivalence, ConcurrentEquivalence, None, Equivalence, PredictiveEquivalence, ConcurrentEquivalence};
+    const Copula _reverse[] = {None, None, None, None, None, None, RetrospectiveImplication, ConcurrentImplication, PredictiveImplication, None, None, ConcurrentEquivalence};
+
+    inline bool is_commutative(Copula copula) { return _commutative[copula]; }
+    inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
+    inline bool is_temporal(Copula copula) { return _temporal[copula]; }
+    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
+    inline Copula reverse(Copula copula) { return _reverse[copula]; }
+
+    void pybind_copula(py::module &m);
+
+} // namespace Copula
+
 #endif // _COPULA_H
\ No newline at end of file
diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 2482fdc..50c05c9 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -1,513 +1,513 @@
-#ifndef _TERM_H
-#define _TERM_H
-
-#include "Connector.h"
-#include "Copula.h"
-#include "utils/IndexVar.h"
-#include "utils/hash.h"
-#include <algorithm>
-#include <array>
-#include <list>
-#include <memory>
-#include <string>
-#include <unordered_set>
-#include <fmt/core.h>
-#include <pybind11/pybind11.h>
-
-// #include "../utils/repr.h"
-namespace VARIABLE
-{
-    class Variable;
-}
-
-namespace COMPOUND
-{
-    class Compound;
-}
-
-namespace STATEMENT
-{
-    class Statement;
-}
-
-namespace TERM
-{
-    namespace py = pybind11;
-    
-    using CONNECTOR::Connector;
-    using COPULA::Copula;
-    // using REPR::repr;
-    using INDEXVAR::IndexVar;
-    using INDEXVAR::pIndexVar;
-    using std::string;
-    using std::unordered_set;
-    using UTILS::Hash;
-    using UTILS::hash;
-
-
-    class Terms;
-    class Term;
-    // typedef std::shared_ptr<Term> pTerm;
-    class PYBIND11_EXPORT pTerm : public std::shared_ptr<Term>
-    {
-    public:
-        void *_interpreter = nullptr;
-
-    public:
-        // using std::shared_ptr<Term>::shared_ptr;
-        pTerm() : std::shared_ptr<Term>::shared_ptr() {}
-        pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
-        // pTerm() : std::shared_ptr<Term>() {}
-
-        ~pTerm();
-
-        std::string __repr__(void *interpreter = nullptr) const;
-
-    private:
-        void _free_from_interpreter();
-        // void _free_from_interpreter() {}
-    };
-
-    typedef std::shared_ptr<Terms> pTerms;
-
-    enum PYBIND11_EXPORT TermType
-    {
-        ATOM = 0,
-        STATEMENT = 1,
-        COMPOUND = 2,
-        INTERVAL = -1,
-        OPERATION = -2,
-        VARIABLE = -3
-    };
-
-    class PYBIND11_EXPORT Term
-    {
-    public:
-        /* for statement */
-        pTerm subject;
-        pTerm predicate;
-        Copula copula = COPULA::None;
-
-        /* for compound */
-        Connector connector = CONNECTOR::None;
-        pTerms terms;
-
-        /* for all */
-        TermType type = TermType::ATOM;
-
-        bool is_var : 1 = false;
-        bool is_ivar : 1 = false;
-        bool is_dvar : 1 = false;
-        bool is_qvar : 1 = false;
-        bool has_var : 1 = false;  // Whether the term contains variable(s).
-        bool has_ivar : 1 = false; // Whether the term contains independent variable(s).
-        bool has_dvar : 1 = false; // Whether the term contains dependent variable(s).
-        bool has_qvar : 1 = false; // Whether the term contains query variable(s).
-
-        bool is_closed : 1 = true; // Whether the term is closed or open in terms of variable.
-        bool is_interval : 1 = false;
-        bool is_operation : 1 = false;
-
-        bool is_higher_order : 1 = false;
-
-        bool is_hashed : 1 = false;
-        size_t hash_value = 0;
-
-        int complexity = 1; // The complexity of the term. Read only.
-
-        pIndexVar _vars_independent = IndexVar::create();
-        pIndexVar _vars_dependent = IndexVar::create();
-        pIndexVar _vars_query = IndexVar::create();
-
-        // Term(int hash_value);
-        // Term(char *_word);
-        // string word;
-        Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
-        Term(const TermType _type) : type(_type) {}
-        virtual ~Term() = default;
-        // ~Term()
-        // {
-        //     std::cout << (size_t)this << " Term freed" << std::endl;
-        // }
-        size_t __hash__()
-        {
-            return this->is_hashed ? this->hash_value : this->do_hashing();
-        }
-
-        virtual size_t do_hashing()
-        {
-            this->hash_value = Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this});
-            this->is_hashed = true;
-            return this->hash_value;
-        }
-
-        inline bool is_atom() const { return this->type == TermType::ATOM; }
-        inline bool is_statement() const { return this->type == TermType::STATEMENT; }
-        inline bool is_compound() const { return this->type == TermType::COMPOUND; }
-
-        static pTerm create()
-        {
-            auto term = new Term();
-            // std::cout << "create Term " << (size_t)term << std::endl;
-            return pTerm(term);
-        }
-
-        static pTerm create(const char *word, void *interpreter = nullptr);
-
-        static pTerm clone(pTerm term);
-
-        bool operator==(Term &other);
-
-        bool operator<(Term &other);
-
-    protected:
-        template <typename _Container>
-        void _refresh_var_status(const _Container &terms)
-        {
-            this->has_var = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                        { return term->has_var; });
-            this->has_ivar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_ivar; });
-            this->has_dvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_dvar; });
-            this->has_qvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_qvar; });
-        }
-
-        void _init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms);
-
-        void _init_indexvars(const std::array<pIndexVar, 3> &variables, std::initializer_list<pTerm> terms);
-
-        void _build_indexvars()
-        {
-            if (this->has_ivar)
-                this->_vars_independent->build();
-            else
-                this->_vars_independent->_is_built = true;
-            if (this->has_dvar)
-                this->_vars_dependent->build();
-            else
-                this->_vars_dependent->_is_built = true;
-            if (this->has_qvar)
-                this->_vars_query->build();
-            else
-                this->_vars_query->_is_built = true;
-        }
-
-        std::array<pIndexVar, 3> _index_vars() const
-        {
-            return {this->_vars_independent, this->_vars_dependent, this->_vars_query};
-        }
-    };
-
-    class PYBIND11_EXPORT Iterator
-    {
-    public:
-        // using iterator_category = typename std::iterator_traits<pTerm *>::iterator_category;
-        // using value_type = typename std::iterator_traits<pTerm *>::value_type;
-        using value_type = pTerm;
-        // using reference = pTerm&;
-        // using pointer = pTerm*;
-        using difference_type = std::ptrdiff_t;
-        using iterator_category = std::input_iterator_tag;
-
-    public:
-        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
-        {
-            if (this->_is_commutative)
-                it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
-            else
-                it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
-        }
-        Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
-        Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
-
-        ~Iterator()
-        {
-            if (it_ == nullptr)
-                return;
-            if (this->_is_commutative)
-                delete ((std::set<pTerm>::iterator *)it_);
-            else
-                delete ((std::vector<pTerm>::iterator *)it_);
-            it_ = nullptr;
-        }
-
-        Iterator &operator=(const Iterator &iterator)
-        {
-            Iterator copy(iterator);
-            std::swap(this->_is_commutative, copy._is_commutative);
-            std::swap(this->it_, copy.it_);
-            return *this;
-        }
-
-        const pTerm &operator*()
-        {
-            if (this->_is_commutative)
-                return **((std::set<pTerm>::iterator *)it_);
-            else
-                return **((std::vector<pTerm>::iterator *)it_);
-        }
-
-        Iterator &operator++()
-        {
-            if (this->_is_commutative)
-                (*((std::set<pTerm>::iterator *)it_))++;
-            else
-                (*((std::vector<pTerm>::iterator *)it_))++;
-            return *this;
-        }
-
-        Iterator &operator++(int)
-        {
-            return ++(*this);
-        }
-
-        bool operator!=(const Iterator &other) const
-        {
-            if (this->_is_commutative)
-                return (*((std::set<pTerm>::iterator *)this->it_)) != (*((std::set<pTerm>::iterator *)other.it_));
-            else
-                return (*((std::vector<pTerm>::iterator *)this->it_)) != (*((std::vector<pTerm>::iterator *)other.it_));
-        }
-
-        bool operator==(const Iterator &other) const
-        {
-            if (this->_is_commutative)
-                return (*((std::set<pTerm>::iterator *)this->it_)) == (*((std::set<pTerm>::iterator *)other.it_));
-            else
-                return (*((std::vector<pTerm>::iterator *)this->it_)) == (*((std::vector<pTerm>::iterator *)other.it_));
-        }
-
-        Iterator operator+(int n) const
-        {
-            if (this->_is_commutative)
-            {
-                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
-                std::advance(newIt, n);
-                return Iterator(newIt);
-            }
-            else
-            {
-                std::vector<pTerm>::iterator newIt = *(std::vector<pTerm>::iterator *)it_;
-                std::advance(newIt, n);
-                return Iterator(newIt);
-            }
-        }
-        Iterator operator-(int n) const
-        {
-            if (this->_is_commutative)
-            {
-                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
-                std::advance(newIt, -n);
-                return Iterator(newIt);
-            }
-            else
-            {
-                std::vector<pTerm>::iterator new_it = *(std::vector<pTerm>::iterator *)it_;
-                std::advance(new_it, -n);
-                return Iterator(new_it);
-            }
-        }
-
-    private:
-        bool _is_commutative;
-        void *it_;
-    };
-
-    class PYBIND11_EXPORT Terms
-    {
-    public:
-        struct compare
-        {
-            bool operator()(const pTerm &a, const pTerm &b) const
-            {
-                auto &term1 = *a;
-                auto &term2 = *b;
-                return term1 < term2;
-                // return a < b;
-            }
-        };
-
-    public:
-        // std::vector<pTerm> terms;
-        std::vector<pTerm> terms_ordered;
-        std::set<pTerm, compare> terms_unordered;
-
-        // IndexVar _vars_independent = IndexVar();
-        // IndexVar _vars_dependent = IndexVar();
-        // IndexVar _vars_query = IndexVar();
-
-        bool _is_commutative;
-
-        Terms(bool is_commutative) : _is_commutative(is_commutative) {}
-
-        // Terms(std::list<pTerm> terms, bool is_commutative);
-        Terms(std::list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-        template <typename _Compare>
-        Terms(std::set<pTerm, _Compare> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-        Terms(std::vector<pTerm> &terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        Terms(std::initializer_list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        Terms(Terms &terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        inline static pTerms create(bool is_commutative)
-        {
-            return pTerms(new Terms(is_commutative));
-        }
-
-        template <typename _T>
-        inline static pTerms create(_T terms, bool is_commutative)
-        {
-            return pTerms(new Terms(terms, is_commutative));
-        }
-
-        inline static auto intersection(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> intersection((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp{};
-                std::set_intersection(
-                    intersection.begin(), intersection.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                intersection = temp;
-            }
-            return Terms::create(intersection, true);
-        }
-
-        inline static auto union_(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> union_((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp;
-                std::set_union(
-                    union_.begin(), union_.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                union_ = temp;
-            }
-            return Terms::create(union_, true);
-        }
-
-        inline static auto difference(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> difference((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp;
-                std::set_difference(
-                    difference.begin(), difference.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                difference = temp;
-            }
-            return Terms::create(difference, true);
-        }
-
-        inline void push_back(pTerm term)
-        {
-            if (this->_is_commutative)
-                this->terms_unordered.insert(term);
-            else
-                this->terms_ordered.push_back(term);
-        }
-
-        inline auto size()
-        {
-            if (this->_is_commutative)
-                return this->terms_unordered.size();
-            else
-                return this->terms_ordered.size();
-        }
-
-        Iterator begin() const
-        {
-            if (this->_is_commutative)
-                return Iterator(this->terms_unordered.begin());
-            else
-                return Iterator(this->terms_ordered.begin());
-        }
-
-        Iterator end() const
-        {
-            if (this->_is_commutative)
-                return Iterator(this->terms_unordered.end());
-            else
-                return Iterator(this->terms_ordered.end());
-        }
-
-        operator std::vector<pTerm>() const
-        {
-            if (this->_is_commutative)
-                return std::vector<pTerm>(this->terms_unordered.begin(), this->terms_unordered.end());
-            else
-                return this->terms_ordered;
-        }
-
-    private:
-        template <typename _T>
-        void fill_terms(_T terms)
-        {
-            if (this->_is_commutative)
-            {
-                for (auto it = terms.begin(); it != terms.end(); it++)
-                {
-                    this->terms_unordered.insert((*it));
-                }
-            }
-            else
-            {
-                for (auto it = terms.begin(); it != terms.end(); it++)
-                {
-                    this->terms_ordered.push_back((*it));
-                }
-            }
-        }
-    };
-    void pybind_term(py::module &m);
-    void pybind_terms(py::module &m);
-
-} // namespace Term
-// #include "Term.inl"
-
+#ifndef _TERM_H
+#define _TERM_H
+
+#include "Connector.h"
+#include "Copula.h"
+#include "utils/IndexVar.h"
+#include "utils/hash.h"
+#include <algorithm>
+#include <array>
+#include <list>
+#include <memory>
+#include <string>
+#include <unordered_set>
+#include <fmt/core.h>
+#include <pybind11/pybind11.h>
+
+// #include "../utils/repr.h"
+namespace VARIABLE
+{
+    class Variable;
+}
+
+namespace COMPOUND
+{
+    class Compound;
+}
+
+namespace STATEMENT
+{
+    class Statement;
+}
+
+namespace TERM
+{
+    namespace py = pybind11;
+    
+    using CONNECTOR::Connector;
+    using COPULA::Copula;
+    // using REPR::repr;
+    using INDEXVAR::IndexVar;
+    using INDEXVAR::pIndexVar;
+    using std::string;
+    using std::unordered_set;
+    using UTILS::Hash;
+    using UTILS::hash;
+
+
+    class Terms;
+    class Term;
+    // typedef std::shared_ptr<Term> pTerm;
+    class PYBIND11_EXPORT pTerm : public std::shared_ptr<Term>
+    {
+    public:
+        void *_interpreter = nullptr;
+
+    public:
+        // using std::shared_ptr<Term>::shared_ptr;
+        pTerm() : std::shared_ptr<Term>::shared_ptr() {}
+        pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
+        // pTerm() : std::shared_ptr<Term>() {}
+
+        ~pTerm();
+
+        std::string __repr__(void *interpreter = nullptr) const;
+
+    private:
+        void _free_from_interpreter();
+        // void _free_from_interpreter() {}
+    };
+
+    typedef std::shared_ptr<Terms> pTerms;
+
+    enum PYBIND11_EXPORT TermType
+    {
+        ATOM = 0,
+        STATEMENT = 1,
+        COMPOUND = 2,
+        INTERVAL = -1,
+        OPERATION = -2,
+        VARIABLE = -3
+    };
+
+    class PYBIND11_EXPORT Term
+    {
+    public:
+        /* for statement */
+        pTerm subject;
+        pTerm predicate;
+        Copula copula = COPULA::None;
+
+        /* for compound */
+        Connector connector = CONNECTOR::None;
+        pTerms terms;
+
+        /* for all */
+        TermType type = TermType::ATOM;
+
+        bool is_var : 1 = false;
+        bool is_ivar : 1 = false;
+        bool is_dvar : 1 = false;
+        bool is_qvar : 1 = false;
+        bool has_var : 1 = false;  // Whether the term contains variable(s).
+        bool has_ivar : 1 = false; // Whether the term contains independent variable(s).
+        bool has_dvar : 1 = false; // Whether the term contains dependent variable(s).
+        bool has_qvar : 1 = false; // Whether the term contains query variable(s).
+
+        bool is_closed : 1 = true; // Whether the term is closed or open in terms of variable.
+        bool is_interval : 1 = false;
+        bool is_operation : 1 = false;
+
+        bool is_higher_order : 1 = false;
+
+        bool is_hashed : 1 = false;
+        size_t hash_value = 0;
+
+        int complexity = 1; // The complexity of the term. Read only.
+
+        pIndexVar _vars_independent = IndexVar::create();
+        pIndexVar _vars_dependent = IndexVar::create();
+        pIndexVar _vars_query = IndexVar::create();
+
+        // Term(int hash_value);
+        // Term(char *_word);
+        // string word;
+        Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
+        Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default;
+        // ~Term()
+        // {
+        //     std::cout << (size_t)this << " Term freed" << std::endl;
+        // }
+        size_t __hash__()
+        {
+            return this->is_hashed ? this->hash_value : this->do_hashing();
+        }
+
+        virtual size_t do_hashing()
+        {
+            this->hash_value = Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this});
+            this->is_hashed = true;
+            return this->hash_value;
+        }
+
+        inline bool is_atom() const { return this->type == TermType::ATOM; }
+        inline bool is_statement() const { return this->type == TermType::STATEMENT; }
+        inline bool is_compound() const { return this->type == TermType::COMPOUND; }
+
+        static pTerm create()
+        {
+            auto term = new Term();
+            // std::cout << "create Term " << (size_t)term << std::endl;
+            return pTerm(term);
+        }
+
+        static pTerm create(const char *word, void *interpreter = nullptr);
+
+        static pTerm clone(pTerm term);
+
+        bool operator==(Term &other);
+
+        bool operator<(Term &other);
+
+    protected:
+        template <typename _Container>
+        void _refresh_var_status(const _Container &terms)
+        {
+            this->has_var = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                        { return term->has_var; });
+            this->has_ivar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_ivar; });
+            this->has_dvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_dvar; });
+            this->has_qvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_qvar; });
+        }
+
+        void _init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms);
+
+        void _init_indexvars(const std::array<pIndexVar, 3> &variables, std::initializer_list<pTerm> terms);
+
+        void _build_indexvars()
+        {
+            if (this->has_ivar)
+                this->_vars_independent->build();
+            else
+                this->_vars_independent->_is_built = true;
+            if (this->has_dvar)
+                this->_vars_dependent->build();
+            else
+                this->_vars_dependent->_is_built = true;
+            if (this->has_qvar)
+                this->_vars_query->build();
+            else
+                this->_vars_query->_is_built = true;
+        }
+
+        std::array<pIndexVar, 3> _index_vars() const
+        {
+            return {this->_vars_independent, this->_vars_dependent, this->_vars_query};
+        }
+    };
+
+    class PYBIND11_EXPORT Iterator
+    {
+    public:
+        // using iterator_category = typename std::iterator_traits<pTerm *>::iterator_category;
+        // using value_type = typename std::iterator_traits<pTerm *>::value_type;
+        using value_type = pTerm;
+        // using reference = pTerm&;
+        // using pointer = pTerm*;
+        using difference_type = std::ptrdiff_t;
+        using iterator_category = std::input_iterator_tag;
+
+    public:
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
+        {
+            if (this->_is_commutative)
+                it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
+            else
+                it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
+        }
+        Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
+        Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
+
+        ~Iterator()
+        {
+            if (it_ == nullptr)
+                return;
+            if (this->_is_commutative)
+                delete ((std::set<pTerm>::iterator *)it_);
+            else
+                delete ((std::vector<pTerm>::iterator *)it_);
+            it_ = nullptr;
+        }
+
+        Iterator &operator=(const Iterator &iterator)
+        {
+            Iterator copy(iterator);
+            std::swap(this->_is_commutative, copy._is_commutative);
+            std::swap(this->it_, copy.it_);
+            return *this;
+        }
+
+        const pTerm &operator*()
+        {
+            if (this->_is_commutative)
+                return **((std::set<pTerm>::iterator *)it_);
+            else
+                return **((std::vector<pTerm>::iterator *)it_);
+        }
+
+        Iterator &operator++()
+        {
+            if (this->_is_commutative)
+                (*((std::set<pTerm>::iterator *)it_))++;
+            else
+                (*((std::vector<pTerm>::iterator *)it_))++;
+            return *this;
+        }
+
+        Iterator &operator++(int)
+        {
+            return ++(*this);
+        }
+
+        bool operator!=(const Iterator &other) const
+        {
+            if (this->_is_commutative)
+                return (*((std::set<pTerm>::iterator *)this->it_)) != (*((std::set<pTerm>::iterator *)other.it_));
+            else
+                return (*((std::vector<pTerm>::iterator *)this->it_)) != (*((std::vector<pTerm>::iterator *)other.it_));
+        }
+
+        bool operator==(const Iterator &other) const
+        {
+            if (this->_is_commutative)
+                return (*((std::set<pTerm>::iterator *)this->it_)) == (*((std::set<pTerm>::iterator *)other.it_));
+            else
+                return (*((std::vector<pTerm>::iterator *)this->it_)) == (*((std::vector<pTerm>::iterator *)other.it_));
+        }
+
+        Iterator operator+(int n) const
+        {
+            if (this->_is_commutative)
+            {
+                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
+                std::advance(newIt, n);
+                return Iterator(newIt);
+            }
+            else
+            {
+                std::vector<pTerm>::iterator newIt = *(std::vector<pTerm>::iterator *)it_;
+                std::advance(newIt, n);
+                return Iterator(newIt);
+            }
+        }
+        Iterator operator-(int n) const
+        {
+            if (this->_is_commutative)
+            {
+                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
+                std::advance(newIt, -n);
+                return Iterator(newIt);
+            }
+            else
+            {
+                std::vector<pTerm>::iterator new_it = *(std::vector<pTerm>::iterator *)it_;
+                std::advance(new_it, -n);
+                return Iterator(new_it);
+            }
+        }
+
+    private:
+        bool _is_commutative;
+        void *it_;
+    };
+
+    class PYBIND11_EXPORT Terms
+    {
+    public:
+        struct compare
+        {
+            bool operator()(const pTerm &a, const pTerm &b) const
+            {
+                auto &term1 = *a;
+                auto &term2 = *b;
+                return term1 < term2;
+                // return a < b;
+            }
+        };
+
+    public:
+        // std::vector<pTerm> terms;
+        std::vector<pTerm> terms_ordered;
+        std::set<pTerm, compare> terms_unordered;
+
+        // IndexVar _vars_independent = IndexVar();
+        // IndexVar _vars_dependent = IndexVar();
+        // IndexVar _vars_query = IndexVar();
+
+        bool _is_commutative;
+
+        Terms(bool is_commutative) : _is_commutative(is_commutative) {}
+
+        // Terms(std::list<pTerm> terms, bool is_commutative);
+        Terms(std::list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+        template <typename _Compare>
+        Terms(std::set<pTerm, _Compare> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+        Terms(std::vector<pTerm> &terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        Terms(std::initializer_list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        Terms(Terms &terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        inline static pTerms create(bool is_commutative)
+        {
+            return pTerms(new Terms(is_commutative));
+        }
+
+        template <typename _T>
+        inline static pTerms create(_T terms, bool is_commutative)
+        {
+            return pTerms(new Terms(terms, is_commutative));
+        }
+
+        inline static auto intersection(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> intersection((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp{};
+                std::set_intersection(
+                    intersection.begin(), intersection.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                intersection = temp;
+            }
+            return Terms::create(intersection, true);
+        }
+
+        inline static auto union_(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> union_((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp;
+                std::set_union(
+                    union_.begin(), union_.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                union_ = temp;
+            }
+            return Terms::create(union_, true);
+        }
+
+        inline static auto difference(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> difference((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp;
+                std::set_difference(
+                    difference.begin(), difference.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                difference = temp;
+            }
+            return Terms::create(difference, true);
+        }
+
+        inline void push_back(pTerm term)
+        {
+            if (this->_is_commutative)
+                this->terms_unordered.insert(term);
+            else
+                this->terms_ordered.push_back(term);
+        }
+
+        inline auto size()
+        {
+            if (this->_is_commutative)
+                return this->terms_unordered.size();
+            else
+                return this->terms_ordered.size();
+        }
+
+        Iterator begin() const
+        {
+            if (this->_is_commutative)
+                return Iterator(this->terms_unordered.begin());
+            else
+                return Iterator(this->terms_ordered.begin());
+        }
+
+        Iterator end() const
+        {
+            if (this->_is_commutative)
+                return Iterator(this->terms_unordered.end());
+            else
+                return Iterator(this->terms_ordered.end());
+        }
+
+        operator std::vector<pTerm>() const
+        {
+            if (this->_is_commutative)
+                return std::vector<pTerm>(this->terms_unordered.begin(), this->terms_unordered.end());
+            else
+                return this->terms_ordered;
+        }
+
+    private:
+        template <typename _T>
+        void fill_terms(_T terms)
+        {
+            if (this->_is_commutative)
+            {
+                for (auto it = terms.begin(); it != terms.end(); it++)
+                {
+                    this->terms_unordered.insert((*it));
+                }
+            }
+            else
+            {
+                for (auto it = terms.begin(); it != terms.end(); it++)
+                {
+                    this->terms_ordered.push_back((*it));
+                }
+            }
+        }
+    };
+    void pybind_term(py::module &m);
+    void pybind_terms(py::module &m);
+
+} // namespace Term
+// #include "Term.inl"
+
 #endif // _TERM_H
\ No newline at end of file
diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 5436835..190d2e3 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -1,352 +1,352 @@
-// #include "../include/Narsese.h"
-#include "../include/Compound.h"
-#include "utils/hash.h"
-#include <map>
-#include <numeric>
-#include <tuple>
-#include <unordered_map>
-#include <vector>
-#include "Interpreter/include/Interpreter.hpp"
-
-using namespace COMPOUND;
-using std::tuple;
-using std::vector;
-using UTILS::hash;
-
-/*
-The `compounds` should have the same `connector`.
-(&, {A, B}, {B, C}) ====> {B}
-(|, {A, B}, {B, C}) ====> {A, B, C}
-(&, [A, B], [B, C]) ====> [A, B, C]
-(|, [A, B], [B, C]) ====> [B]
-(-, {A, B}, {B, C}) ====> {A}
-(~, [A, B], [B, C]) ====> [A]
-
-It is ensured that the concerned components have no further nested compound which should be unfolded, because if there were, it would be unfolded when building its parent compound.
-
-Make sure all the `compounds` have the same `connector`
-*/
-pTerms _merge_compounds(Connector connector_parent, Connector connector, const vector<pTerm> &compounds)
-{
-    auto get_all_terms = [connector_parent](const vector<pTerm> &input, std::vector<pTerms> &output)
-    {
-        for (auto term : input)
-        {
-            auto &cmpd = (Compound &)*term;
-            const auto components = cmpd.terms;
-            output.push_back(components);
-        }
-    };
-
-    if (connector_parent == Connector::ExtensionalIntersection)
-    {
-        if (connector == Connector::ExtensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::intersection(terms_all);
-        }
-        else if (connector == Connector::IntensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::union_(terms_all);
-        }
-        else
-        {
-            return nullptr; // Return nullptr indicating no merge is needed
-        }
-    }
-    else if (connector_parent == Connector::IntensionalIntersection)
-    {
-        if (connector == Connector::ExtensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::union_(terms_all);
-        }
-        else if (connector == Connector::IntensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::intersection(terms_all);
-        }
-        else
-        {
-            return nullptr; // Return nullptr indicating no merge is needed
-        }
-    }
-    else if (connector_parent == Connector::ExtensionalDifference && connector == Connector::ExtensionalSet)
-    {
-        std::vector<pTerms> terms_all;
-        get_all_terms(compounds, terms_all);
-        return Terms::difference(terms_all);
-    }
-    else if (connector_parent == Connector::IntensionalDifference && connector == Connector::IntensionalSet)
-    {
-        std::vector<pTerms> terms_all;
-        get_all_terms(compounds, terms_all);
-        return Terms::difference(terms_all);
-    }
-    else if (connector_parent == connector)
-    {
-        std::vector<pTerm> terms_all;
-        for (auto term : compounds)
-        {
-            auto &cmpd = (Compound &)*term;
-            const auto components = cmpd.terms;
-            terms_all.insert(terms_all.end(), components->begin(), components->end());
-        }
-        return Terms::create(terms_all, CONNECTOR::is_commutative(connector));
-    }
-    else
-    {
-        return nullptr; // Return nullptr indicating no merge is needed
-    }
-}
-
-/*
-pre-process the terms, return the connecor of this compound and the set/list of components.
-For `{{A, B}, {B, C}}`, return `{, A, B, C`;
-    proof: {{A, B}, {B, C}}={(|, {A}, {B}), (|, {B}, {C})}=(|, (|, {A}, {B}), (|, {B}, {C}))=(|, {A}, {B}, {C})={A, B, C}
-For `[[A, B], [B, C]]`, return `[, A, B, C`;
-For `(con, (con, A, B), (con, B, C))`, return `con, A, B, C` if con is commutative, else return `con, A, B, B, C`
-For `(|, {A, B}, {B, C})`, return `{, A, B, C`;
-For `(&, [A, B], [B, C])`, return `[, A, B, C`;
-For `(con, A, B, C)`, return `con, A, B, C`;
-For `{{A, B}, {B, C}, D}`, return `{, {A, B, C}, D`;
-
-Returns:
-    connector, terms
-
-*/
-std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connector_parent, pTerms terms)
-{
-    // static const std::set<Connector> set1{Connector::Product, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
-    auto is_commutative = CONNECTOR::is_commutative(connector_parent);
-    if (!CONNECTOR::is_reducible(connector_parent))
-    {
-        /*
-        For example, in the test-case `nal6.22.nal`, there is a statement
-        `<(*,(*,(*,0))) --> num>`
-        */
-        return {connector_parent, terms};
-    }
-    if (is_commutative)
-    {
-        /*
-        if there are terms with the same commutative connector, they should be combined together
-        */
-        // auto categories = std::map<Connector, std::vector<pTerm>>();
-        // auto categories = std::unordered_map<Connector, std::vector<pTerm>>();
-        std::unordered_map<Connector, std::vector<pTerm>> categories{};
-        pTerms _terms;
-        Connector _connector;
-        /* Step 1. Categorize the terms according to their connectors. */
-
-        pTerms terms2 = terms;
-        pTerms terms = pTerms(new Terms(is_commutative));
-        for (auto term : *terms2)
-        {
-            if (term->is_compound() && term->connector == connector_parent)
-                for (auto _term : *(term->terms))
-                    terms->push_back(_term);
-            else
-                terms->push_back(term);
-        }
-
-        for (auto term : *terms)
-        {
-            _connector = Connector::None; // `None` means the connector of the term is not cared about, because it just needs to be added into the parent compound-term as a whole.
-            if (term->is_compound())
-            {
-                auto &cmpd = (Compound &)*term;
-                if (cmpd.is_commutative)
-                    _connector = cmpd.connector;
-            }
-            if (!categories.contains(_connector))
-                categories[_connector] = std::vector<pTerm>();
-            auto &category = categories[_connector];
-            category.push_back(term);
-        }
-
-        /* Step 2. */
-        std::vector<std::tuple<Connector, pTerms>> terms_norm;
-        for (const auto &pair : categories)
-        {
-            auto &connector = pair.first;
-            auto &compounds = pair.second;
-            if (connector == Connector::None)
-            {
-                for (auto &compound : compounds)
-                    terms_norm.push_back({connector, Terms::create(std::vector{compound}, true)});
-                continue;
-            }
-
-            /* Now, `connector` is not `None`. */
-            auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr || terms_merged->size() == 0)
-            {
-                /* Nothing to merge into, keep the compounds as they are. */
-                for (auto &compound : compounds)
-                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
-                continue;
-            }
-
-            /*
-            Now, `terms_merged` is not `None`.
-
-            However, the compounds (in `terms_merged`), as components, shouldn't further be constructed as a compound term immediately, as there are some cases where there is only one compound and the parent connector should be set as the current single compound connector, for example, (|, {A, B}, {C, D}) is handled and `terms_merged` is `A, B, C, D`. In this case, if this function returned a compound `{A, B, C, D}`, the parent compound would be (&, {A, B, C, D}), which is obviously incorrect.
-
-            Hence, the final construction of the compound is out of this function.
-            */
-            terms_norm.push_back({connector, terms_merged});
-        }
-
-        /* Nothing to normalize. */
-        if (terms_norm.empty())
-            return {connector_parent, terms};
-
-        /* Step 3. */
-        if (terms_norm.size() > 1)
-        {
-            std::vector<pTerm> _terms_all;
-            for (auto &pair : terms_norm)
-            {
-                std::tie(_connector, _terms) = pair;
-                if (_connector == Connector::None || _connector == connector_parent)
-                {
-                    _terms_all.insert(_terms_all.end(), _terms->begin(), _terms->end());
-                }
-                else if (CONNECTOR::check_valid(_connector, _terms->size()))
-                {
-                    auto _term = Compound::create(_connector, _terms);
-                    _terms_all.push_back(_term);
-                }
-            }
-            if (_terms_all.size() > 1)
-            {
-                return {connector_parent, Terms::create(_terms_all, true)};
-            }
-            else // _terms_all.size() == 1
-            {
-                auto _term = *_terms_all.begin();
-                if (_term->is_compound())
-                {
-                    auto &_cmpd = (Compound &)(*_term);
-                    auto _connector = _cmpd.connector;
-                    terms_norm = {{_connector, _cmpd.terms}};
-                }
-                else
-                {
-                    terms_norm = {{Connector::None, Terms::create(_terms_all, true)}};
-                }
-            }
-        }
-
-        /* Step 4. */
-        {
-            /*
-            Now, there is only one term in `terms_norm`.
-            */
-            std::tie(_connector, _terms) = *terms_norm.begin();
-            /*
-            the connector returned depends on the types of `connector` and `connector_parent`. For example,
-                if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
-                if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
-                if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
-            */
-            if (_connector != Connector::None)
-            {
-                return {_connector, Terms::create(*_terms, true)};
-            }
-
-            /* otherwise, return `connector_parent` as the connector. */
-            return {connector_parent, Terms::create(*_terms, true)};
-            // return connector_parent, Terms(terms, is_commutative=True, is_input=is_input)
-        }
-    }
-    else
-    {
-        /*
-        E.g. (&/, (&/, A, B), (&|, C, D), E) will be converted to (&/, A, B, (&|, C, D), E)
-        */
-        auto expanded_terms = pTerms(new Terms(is_commutative));
-
-        for (const auto &term : *terms)
-        {
-            if (term->is_compound() && term->connector == connector_parent)
-            {
-                auto &cmpd = (Compound &)*term;
-                for (const auto &component : cmpd.components())
-                {
-                    expanded_terms->push_back(component);
-                }
-            }
-            else
-            {
-                expanded_terms->push_back(term);
-            }
-        }
-        return {connector_parent, expanded_terms};
-    }
-    return {connector_parent, terms};
-}
-
-Compound::Compound(Connector connector, pTerms terms, bool is_input) : Term(TermType::COMPOUND)
-{
-    this->is_hashed = false;
-
-    // this->type = TermType::COMPOUND;
-    this->connector = connector;
-    pTerms _terms;
-    std::tie(this->connector, _terms) = prepocess_terms(*this, connector, terms);
-    this->is_commutative = CONNECTOR::is_commutative(this->connector);
-    if (is_input)
-    {
-        this->terms = _terms;
-    }
-    else
-    {
-        this->terms = Terms::create(this->is_commutative);
-        for (auto &_term : *_terms)
-            this->terms->push_back(Term::clone(_term));
-    }
-    this->hash_value = hash(*this);
-    this->complexity = std::accumulate(this->terms->begin(), this->terms->end(), 0,
-                                       [](int sum, const auto &term)
-                                       { return sum + term->complexity; });
-
-    this->_refresh_var_status(*this->terms);
-    this->_init_indexvars(this->_index_vars(), *this->terms);
-    this->_build_indexvars();
-}
-
-Compound::Compound(Connector connector, std::list<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-Compound::Compound(Connector connector, std::vector<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-Compound::Compound(Connector connector, std::initializer_list<pTerm> terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-void COMPOUND::pybind_compound(py::module &m)
-{
-    py::class_<COMPOUND::pCompound, TERM::pTerm>(m, "Compound")
-        .def(py::init(
-            [](CONNECTOR::Connector connector, py::args args)
-            {
-                std::vector<TERM::pTerm> terms{};
-                for (auto arg : args)
-                    terms.push_back(py::cast<TERM::pTerm>(arg));
-                return COMPOUND::Compound::create(connector, terms);
-            }))
-        // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-        .def("__repr__", [](const pCompound &self){
-                return self.__repr__((void *)&INTERPRETER::interpreter);
-            });
-}
+// #include "../include/Narsese.h"
+#include "../include/Compound.h"
+#include "utils/hash.h"
+#include <map>
+#include <numeric>
+#include <tuple>
+#include <unordered_map>
+#include <vector>
+#include "Interpreter/include/Interpreter.hpp"
+
+using namespace COMPOUND;
+using std::tuple;
+using std::vector;
+using UTILS::hash;
+
+/*
+The `compounds` should have the same `connector`.
+(&, {A, B}, {B, C}) ====> {B}
+(|, {A, B}, {B, C}) ====> {A, B, C}
+(&, [A, B], [B, C]) ====> [A, B, C]
+(|, [A, B], [B, C]) ====> [B]
+(-, {A, B}, {B, C}) ====> {A}
+(~, [A, B], [B, C]) ====> [A]
+
+It is ensured that the concerned components have no further nested compound which should be unfolded, because if there were, it would be unfolded when building its parent compound.
+
+Make sure all the `compounds` have the same `connector`
+*/
+pTerms _merge_compounds(Connector connector_parent, Connector connector, const vector<pTerm> &compounds)
+{
+    auto get_all_terms = [connector_parent](const vector<pTerm> &input, std::vector<pTerms> &output)
+    {
+        for (auto term : input)
+        {
+            auto &cmpd = (Compound &)*term;
+            const auto components = cmpd.terms;
+            output.push_back(components);
+        }
+    };
+
+    if (connector_parent == Connector::ExtensionalIntersection)
+    {
+        if (connector == Connector::ExtensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::intersection(terms_all);
+        }
+        else if (connector == Connector::IntensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::union_(terms_all);
+        }
+        else
+        {
+            return nullptr; // Return nullptr indicating no merge is needed
+        }
+    }
+    else if (connector_parent == Connector::IntensionalIntersection)
+    {
+        if (connector == Connector::ExtensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::union_(terms_all);
+        }
+        else if (connector == Connector::IntensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::intersection(terms_all);
+        }
+        else
+        {
+            return nullptr; // Return nullptr indicating no merge is needed
+        }
+    }
+    else if (connector_parent == Connector::ExtensionalDifference && connector == Connector::ExtensionalSet)
+    {
+        std::vector<pTerms> terms_all;
+        get_all_terms(compounds, terms_all);
+        return Terms::difference(terms_all);
+    }
+    else if (connector_parent == Connector::IntensionalDifference && connector == Connector::IntensionalSet)
+    {
+        std::vector<pTerms> terms_all;
+        get_all_terms(compounds, terms_all);
+        return Terms::difference(terms_all);
+    }
+    else if (connector_parent == connector)
+    {
+        std::vector<pTerm> terms_all;
+        for (auto term : compounds)
+        {
+            auto &cmpd = (Compound &)*term;
+            const auto components = cmpd.terms;
+            terms_all.insert(terms_all.end(), components->begin(), components->end());
+        }
+        return Terms::create(terms_all, CONNECTOR::is_commutative(connector));
+    }
+    else
+    {
+        return nullptr; // Return nullptr indicating no merge is needed
+    }
+}
+
+/*
+pre-process the terms, return the connecor of this compound and the set/list of components.
+For `{{A, B}, {B, C}}`, return `{, A, B, C`;
+    proof: {{A, B}, {B, C}}={(|, {A}, {B}), (|, {B}, {C})}=(|, (|, {A}, {B}), (|, {B}, {C}))=(|, {A}, {B}, {C})={A, B, C}
+For `[[A, B], [B, C]]`, return `[, A, B, C`;
+For `(con, (con, A, B), (con, B, C))`, return `con, A, B, C` if con is commutative, else return `con, A, B, B, C`
+For `(|, {A, B}, {B, C})`, return `{, A, B, C`;
+For `(&, [A, B], [B, C])`, return `[, A, B, C`;
+For `(con, A, B, C)`, return `con, A, B, C`;
+For `{{A, B}, {B, C}, D}`, return `{, {A, B, C}, D`;
+
+Returns:
+    connector, terms
+
+*/
+std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connector_parent, pTerms terms)
+{
+    // static const std::set<Connector> set1{Connector::Product, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
+    auto is_commutative = CONNECTOR::is_commutative(connector_parent);
+    if (!CONNECTOR::is_reducible(connector_parent))
+    {
+        /*
+        For example, in the test-case `nal6.22.nal`, there is a statement
+        `<(*,(*,(*,0))) --> num>`
+        */
+        return {connector_parent, terms};
+    }
+    if (is_commutative)
+    {
+        /*
+        if there are terms with the same commutative connector, they should be combined together
+        */
+        // auto categories = std::map<Connector, std::vector<pTerm>>();
+        // auto categories = std::unordered_map<Connector, std::vector<pTerm>>();
+        std::unordered_map<Connector, std::vector<pTerm>> categories{};
+        pTerms _terms;
+        Connector _connector;
+        /* Step 1. Categorize the terms according to their connectors. */
+
+        pTerms terms2 = terms;
+        pTerms terms = pTerms(new Terms(is_commutative));
+        for (auto term : *terms2)
+        {
+            if (term->is_compound() && term->connector == connector_parent)
+                for (auto _term : *(term->terms))
+                    terms->push_back(_term);
+            else
+                terms->push_back(term);
+        }
+
+        for (auto term : *terms)
+        {
+            _connector = Connector::None; // `None` means the connector of the term is not cared about, because it just needs to be added into the parent compound-term as a whole.
+            if (term->is_compound())
+            {
+                auto &cmpd = (Compound &)*term;
+                if (cmpd.is_commutative)
+                    _connector = cmpd.connector;
+            }
+            if (!categories.contains(_connector))
+                categories[_connector] = std::vector<pTerm>();
+            auto &category = categories[_connector];
+            category.push_back(term);
+        }
+
+        /* Step 2. */
+        std::vector<std::tuple<Connector, pTerms>> terms_norm;
+        for (const auto &pair : categories)
+        {
+            auto &connector = pair.first;
+            auto &compounds = pair.second;
+            if (connector == Connector::None)
+            {
+                for (auto &compound : compounds)
+                    terms_norm.push_back({connector, Terms::create(std::vector{compound}, true)});
+                continue;
+            }
+
+            /* Now, `connector` is not `None`. */
+            auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
+            if (terms_merged == nullptr || terms_merged->size() == 0)
+            {
+                /* Nothing to merge into, keep the compounds as they are. */
+                for (auto &compound : compounds)
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
+                continue;
+            }
+
+            /*
+            Now, `terms_merged` is not `None`.
+
+            However, the compounds (in `terms_merged`), as components, shouldn't further be constructed as a compound term immediately, as there are some cases where there is only one compound and the parent connector should be set as the current single compound connector, for example, (|, {A, B}, {C, D}) is handled and `terms_merged` is `A, B, C, D`. In this case, if this function returned a compound `{A, B, C, D}`, the parent compound would be (&, {A, B, C, D}), which is obviously incorrect.
+
+            Hence, the final construction of the compound is out of this function.
+            */
+            terms_norm.push_back({connector, terms_merged});
+        }
+
+        /* Nothing to normalize. */
+        if (terms_norm.empty())
+            return {connector_parent, terms};
+
+        /* Step 3. */
+        if (terms_norm.size() > 1)
+        {
+            std::vector<pTerm> _terms_all;
+            for (auto &pair : terms_norm)
+            {
+                std::tie(_connector, _terms) = pair;
+                if (_connector == Connector::None || _connector == connector_parent)
+                {
+                    _terms_all.insert(_terms_all.end(), _terms->begin(), _terms->end());
+                }
+                else if (CONNECTOR::check_valid(_connector, _terms->size()))
+                {
+                    auto _term = Compound::create(_connector, _terms);
+                    _terms_all.push_back(_term);
+                }
+            }
+            if (_terms_all.size() > 1)
+            {
+                return {connector_parent, Terms::create(_terms_all, true)};
+            }
+            else // _terms_all.size() == 1
+            {
+                auto _term = *_terms_all.begin();
+                if (_term->is_compound())
+                {
+                    auto &_cmpd = (Compound &)(*_term);
+                    auto _connector = _cmpd.connector;
+                    terms_norm = {{_connector, _cmpd.terms}};
+                }
+                else
+                {
+                    terms_norm = {{Connector::None, Terms::create(_terms_all, true)}};
+                }
+            }
+        }
+
+        /* Step 4. */
+        {
+            /*
+            Now, there is only one term in `terms_norm`.
+            */
+            std::tie(_connector, _terms) = *terms_norm.begin();
+            /*
+            the connector returned depends on the types of `connector` and `connector_parent`. For example,
+                if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
+                if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
+                if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
+            */
+            if (_connector != Connector::None)
+            {
+                return {_connector, Terms::create(*_terms, true)};
+            }
+
+            /* otherwise, return `connector_parent` as the connector. */
+            return {connector_parent, Terms::create(*_terms, true)};
+            // return connector_parent, Terms(terms, is_commutative=True, is_input=is_input)
+        }
+    }
+    else
+    {
+        /*
+        E.g. (&/, (&/, A, B), (&|, C, D), E) will be converted to (&/, A, B, (&|, C, D), E)
+        */
+        auto expanded_terms = pTerms(new Terms(is_commutative));
+
+        for (const auto &term : *terms)
+        {
+            if (term->is_compound() && term->connector == connector_parent)
+            {
+                auto &cmpd = (Compound &)*term;
+                for (const auto &component : cmpd.components())
+                {
+                    expanded_terms->push_back(component);
+                }
+            }
+            else
+            {
+                expanded_terms->push_back(term);
+            }
+        }
+        return {connector_parent, expanded_terms};
+    }
+    return {connector_parent, terms};
+}
+
+Compound::Compound(Connector connector, pTerms terms, bool is_input) : Term(TermType::COMPOUND)
+{
+    this->is_hashed = false;
+
+    // this->type = TermType::COMPOUND;
+    this->connector = connector;
+    pTerms _terms;
+    std::tie(this->connector, _terms) = prepocess_terms(*this, connector, terms);
+    this->is_commutative = CONNECTOR::is_commutative(this->connector);
+    if (is_input)
+    {
+        this->terms = _terms;
+    }
+    else
+    {
+        this->terms = Terms::create(this->is_commutative);
+        for (auto &_term : *_terms)
+            this->terms->push_back(Term::clone(_term));
+    }
+    this->hash_value = hash(*this);
+    this->complexity = std::accumulate(this->terms->begin(), this->terms->end(), 0,
+                                       [](int sum, const auto &term)
+                                       { return sum + term->complexity; });
+
+    this->_refresh_var_status(*this->terms);
+    this->_init_indexvars(this->_index_vars(), *this->terms);
+    this->_build_indexvars();
+}
+
+Compound::Compound(Connector connector, std::list<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+Compound::Compound(Connector connector, std::vector<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+Compound::Compound(Connector connector, std::initializer_list<pTerm> terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+void COMPOUND::pybind_compound(py::module &m)
+{
+    py::class_<COMPOUND::pCompound, TERM::pTerm>(m, "Compound")
+        .def(py::init(
+            [](CONNECTOR::Connector connector, py::args args)
+            {
+                std::vector<TERM::pTerm> terms{};
+                for (auto arg : args)
+                    terms.push_back(py::cast<TERM::pTerm>(arg));
+                return COMPOUND::Compound::create(connector, terms);
+            }))
+        // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
+        .def("__repr__", [](const pCompound &self){
+                return self.__repr__((void *)&INTERPRETER::interpreter);
+            });
+}
diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 5155dce..52a2d97 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -1,27 +1,27 @@
-#include "../include/Connector.h"
-
-
-using namespace CONNECTOR;
-
-namespace CONNECTOR
-{
-    void pybind_connnector(py::module &m)
-    {
-        py::enum_<CONNECTOR::Connector>(m, "Connector")
-            .value("Conjunction", CONNECTOR::Connector::Conjunction, "&&")
-            .value("Disjunction", CONNECTOR::Connector::Disjunction, "||")
-            .value("Product", CONNECTOR::Connector::Product, "*")
-            .value("ParallelEvents", CONNECTOR::Connector::ParallelEvents, "&|")
-            .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
-            .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
-            .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
-            .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
-            .value("Negation", CONNECTOR::Connector::Negation, "--")
-            .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-            .value("ExtensionalSet", CONNECTOR::Connector::ExtensionalSet, "{")
-            .value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\")
-            .value("ExtensionalImage", CONNECTOR::Connector::ExtensionalImage, "/")
-            .value("List", CONNECTOR::Connector::List, "#");
-    }
-} // namespace CONNECTOR
+#include "../include/Connector.h"
+
+
+using namespace CONNECTOR;
+
+namespace CONNECTOR
+{
+    void pybind_connnector(py::module &m)
+    {
+        py::enum_<CONNECTOR::Connector>(m, "Connector")
+            .value("Conjunction", CONNECTOR::Connector::Conjunction, "&&")
+            .value("Disjunction", CONNECTOR::Connector::Disjunction, "||")
+            .value("Product", CONNECTOR::Connector::Product, "*")
+            .value("ParallelEvents", CONNECTOR::Connector::ParallelEvents, "&|")
+            .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
+            .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
+            .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
+            .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
+            .value("Negation", CONNECTOR::Connector::Negation, "--")
+            .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
+            .value("ExtensionalSet", CONNECTOR::Connector::ExtensionalSet, "{")
+            .value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\")
+            .value("ExtensionalImage", CONNECTOR::Connector::ExtensionalImage, "/")
+            .value("List", CONNECTOR::Connector::List, "#");
+    }
+} // namespace CONNECTOR
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 4cc25a7..6f06fa9 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -1,28 +1,28 @@
-#include "../include/Statement.h"
-#include "../include/Term.h"
-#include "Interpreter/include/Interpreter.hpp"
-#include <string>
-#include <vector>
-
-using string = std::string;
-using std::unordered_set;
-using TERM::Term;
-using UTILS::hash;
-
-namespace STATEMENT
-{
-
-    void pybind_statement(py::module &m)
-    {
-        py::class_<STATEMENT::pStatement, TERM::pTerm>(m, "Statement")
-            .def(py::init(
-                [](TERM::pTerm subject, COPULA::Copula copula, TERM::pTerm predicate)
-                {
-                    return STATEMENT::Statement::create(subject, copula, predicate);
-                }))
-            // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-            .def("__repr__", [](const pStatement &self){
-                return self.__repr__((void *)&INTERPRETER::interpreter);
-            });
-    }
-}
+#include "../include/Statement.h"
+#include "../include/Term.h"
+#include "Interpreter/include/Interpreter.hpp"
+#include <string>
+#include <vector>
+
+using string = std::string;
+using std::unordered_set;
+using TERM::Term;
+using UTILS::hash;
+
+namespace STATEMENT
+{
+
+    void pybind_statement(py::module &m)
+    {
+        py::class_<STATEMENT::pStatement, TERM::pTerm>(m, "Statement")
+            .def(py::init(
+                [](TERM::pTerm subject, COPULA::Copula copula, TERM::pTerm predicate)
+                {
+                    return STATEMENT::Statement::create(subject, copula, predicate);
+                }))
+            // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
+            .def("__repr__", [](const pStatement &self){
+                return self.__repr__((void *)&INTERPRETER::interpreter);
+            });
+    }
+}
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index eb2313d..c3494ff 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -1,140 +1,140 @@
-#include "../include/Term.h"
-#include "../include/Copula.h"
-#include "../include/Term.inl"
-#include "Interpreter/include/Interpreter.hpp"
-#include "utils/hash.h"
-#include <list>
-#include <pybind11/stl.h>
-#include <string>
-#include <vector>
-
-// using namespace TERM;
-using INTERPRETER::Interpreter;
-using std::string;
-using TERM::pTerm;
-
-namespace TERM
-{
-    pTerm Term::create(const char *word, void *interpreter)
-    {
-        if (interpreter == nullptr)
-        {
-            interpreter = &INTERPRETER::interpreter;
-        }
-        auto &_interpreter = *(Interpreter *)interpreter;
-
-        pTerm *term;
-        auto str = std::string(word);
-        if (_interpreter.check_by_name(str) > 0)
-        {
-            auto key = _interpreter.get_by_name(str);
-            term = (pTerm *)_interpreter.get_object(key);
-            // std::cout << "create Term " << (size_t)term << std::endl;
-        }
-        else
-        {
-            term = new pTerm(new Term(), &_interpreter);
-            _interpreter.put((*term)->hash_value, str, (void *)term);
-        }
-        return *term;
-    }
-
-    void pTerm::_free_from_interpreter()
-    {
-        auto &interpreter = *(Interpreter *)this->_interpreter;
-        const auto &term = **this;
-        interpreter.remove(term.hash_value);
-    }
-
-    std::string pTerm::__repr__(void *interpreter) const
-    {
-        std::string mark;
-        if ((*this)->is_atom())
-        {
-            if ((*this)->is_var)
-                mark = "Variable";
-            else
-                mark = "Term";
-        }
-        else if ((*this)->is_statement())
-            mark = "Statement";
-        else if ((*this)->is_compound())
-            mark = "Compound";
-        else
-            throw std::runtime_error("Unknown type of the term.");
-
-        if (interpreter == nullptr)
-        {
-            if (this->_interpreter == nullptr)
-                return fmt::format("<{} at {:x}>", mark, (size_t)this->get());
-            else
-                interpreter = this->_interpreter;
-        }
-        auto &_interpreter = *(Interpreter *)interpreter;
-
-        return fmt::format("<{}: {}>", mark, _interpreter.interpret(**this));
-    }
-
-    void pybind_term(py::module &m)
-    {
-        py::class_<pTerm>(m, "Term")
-            .def(py::init(
-                []()
-                {
-                    return TERM::Term::create();
-                }))
-            .def(py::init(
-                [](std::string word)
-                {
-                    return TERM::Term::create((char *)word.c_str(), nullptr);
-                }))
-            .def_property_readonly(
-                "subject",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->subject == nullptr)
-                        return py::none();
-                    return py::cast(self->subject);
-                })
-            .def_property_readonly(
-                "predicate",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->predicate == nullptr)
-                        return py::none();
-                    return py::cast(self->predicate);
-                })
-            .def_property_readonly(
-                "terms",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->is_atom())
-                        return py::none();
-                    else if (self->is_statement())
-                        return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
-                    else if (self->is_compound())
-                        return py::make_iterator(self->terms->begin(), self->terms->end());
-                    else
-                    {
-                        PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-                        return py::none();
-                    }
-                })
-            .def_property_readonly(
-                "copula",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->copula == Copula::None)
-                        return py::none();
-                    return py::cast(self->copula);
-                })
-            .def("__repr__", [](const pTerm &self){
-                return self.__repr__((void *)&INTERPRETER::interpreter);
-            });
-    }
-
-    void pybind_terms(py::module &m)
-    {
-    }
-
-}
+#include "../include/Term.h"
+#include "../include/Copula.h"
+#include "../include/Term.inl"
+#include "Interpreter/include/Interpreter.hpp"
+#include "utils/hash.h"
+#include <list>
+#include <pybind11/stl.h>
+#include <string>
+#include <vector>
+
+// using namespace TERM;
+using INTERPRETER::Interpreter;
+using std::string;
+using TERM::pTerm;
+
+namespace TERM
+{
+    pTerm Term::create(const char *word, void *interpreter)
+    {
+        if (interpreter == nullptr)
+        {
+            interpreter = &INTERPRETER::interpreter;
+        }
+        auto &_interpreter = *(Interpreter *)interpreter;
+
+        pTerm *term;
+        auto str = std::string(word);
+        if (_interpreter.check_by_name(str) > 0)
+        {
+            auto key = _interpreter.get_by_name(str);
+            term = (pTerm *)_interpreter.get_object(key);
+            // std::cout << "create Term " << (size_t)term << std::endl;
+        }
+        else
+        {
+            term = new pTerm(new Term(), &_interpreter);
+            _interpreter.put((*term)->hash_value, str, (void *)term);
+        }
+        return *term;
+    }
+
+    void pTerm::_free_from_interpreter()
+    {
+        auto &interpreter = *(Interpreter *)this->_interpreter;
+        const auto &term = **this;
+        interpreter.remove(term.hash_value);
+    }
+
+    std::string pTerm::__repr__(void *interpreter) const
+    {
+        std::string mark;
+        if ((*this)->is_atom())
+        {
+            if ((*this)->is_var)
+                mark = "Variable";
+            else
+                mark = "Term";
+        }
+        else if ((*this)->is_statement())
+            mark = "Statement";
+        else if ((*this)->is_compound())
+            mark = "Compound";
+        else
+            throw std::runtime_error("Unknown type of the term.");
+
+        if (interpreter == nullptr)
+        {
+            if (this->_interpreter == nullptr)
+                return fmt::format("<{} at {:x}>", mark, (size_t)this->get());
+            else
+                interpreter = this->_interpreter;
+        }
+        auto &_interpreter = *(Interpreter *)interpreter;
+
+        return fmt::format("<{}: {}>", mark, _interpreter.interpret(**this));
+    }
+
+    void pybind_term(py::module &m)
+    {
+        py::class_<pTerm>(m, "Term")
+            .def(py::init(
+                []()
+                {
+                    return TERM::Term::create();
+                }))
+            .def(py::init(
+                [](std::string word)
+                {
+                    return TERM::Term::create((char *)word.c_str(), nullptr);
+                }))
+            .def_property_readonly(
+                "subject",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->subject == nullptr)
+                        return py::none();
+                    return py::cast(self->subject);
+                })
+            .def_property_readonly(
+                "predicate",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->predicate == nullptr)
+                        return py::none();
+                    return py::cast(self->predicate);
+                })
+            .def_property_readonly(
+                "terms",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->is_atom())
+                        return py::none();
+                    else if (self->is_statement())
+                        return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
+                    else if (self->is_compound())
+                        return py::make_iterator(self->terms->begin(), self->terms->end());
+                    else
+                    {
+                        PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
+                        return py::none();
+                    }
+                })
+            .def_property_readonly(
+                "copula",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->copula == Copula::None)
+                        return py::none();
+                    return py::cast(self->copula);
+                })
+            .def("__repr__", [](const pTerm &self){
+                return self.__repr__((void *)&INTERPRETER::interpreter);
+            });
+    }
+
+    void pybind_terms(py::module &m)
+    {
+    }
+
+}
diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index 98d31dc..2b159dc 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -1,158 +1,158 @@
-#include "IndexVar.h"
-#include <memory>
-#include <unordered_map>
-#include <map>
-#include <set>
-#include <unordered_set>
-#include <vector>
-#include "./hash.h"
-
-using std::vector;
-
-using namespace INDEXVAR;
-using UTILS::hash;
-
-/* Helper Functions */
-
-inline std::shared_ptr<vector<int>> _normalize(const vector<int> &variables)
-{
-    // Number the variables in the order of their first occurrence, so that renaming them makes no difference.
-    std::map<int, int> mapping;
-    for (const auto &p : variables)
-    {
-        mapping.emplace(p, (int)mapping.size());
-    }
-
-    auto result = std::make_shared<vector<int>>();
-    for (const auto &p : variables)
-    {
-        result->push_back(mapping[p]);
-    }
-
-    return result;
-}
-
-inline std::shared_ptr<vector<int>> _normalize(const vector<pInt> &indices)
-{
-    std::vector<int> variables;
-    for (const auto &var : indices)
-    {
-        variables.push_back(*var);
-    }
-
-    return _normalize(variables);
-}
-
-/* IndexVar */
-
-std::shared_ptr<vector<int>> IndexVar::normalize()
-{
-    /*
-    normalize the index, so that the index is unique in terms of one statement which has variable(s).
-    */
-    if (this->_indices_normalized == nullptr)
-    {
-        this->_indices_normalized = _normalize(this->indices);
-    }
-
-    return this->_indices_normalized;
-}
-
-void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
-{
-    father->_is_hashed = false;
-    father->_is_built = false;
-    father->_indices_normalized = nullptr;
-
-    father->successors.push_back(son);
-    son->predecessor = father;
-
-    if (!generate_pos)
-        return;
-
-    int bias_pos = father->successors.size() - 1;
-    auto &indices = son->indices;
-    std::vector<std::vector<int>> positions;
-    for (const auto &pos : son->positions)
-    {
-        std::vector<int> position = {bias_pos};
-        position.insert(position.end(), pos.begin(), pos.end());
-        positions.push_back(position);
-    }
-    father->indices.insert(father->indices.end(), indices.begin(), indices.end());
-    father->positions.insert(father->positions.end(), positions.begin(), positions.end());
-}
-
-void IndexVar::build(bool rebuild)
-{
-    if (!rebuild && this->_is_built)
-        return;
-
-    if (successors.size() > 0)
-    {
-        indices.clear();
-        positions.clear();
-    }
-
-    for (int bias_pos = 0; bias_pos < successors.size(); bias_pos++)
-    {
-        successors[bias_pos]->build(rebuild);
-        auto &_indices = successors[bias_pos]->indices;
-        std::vector<std::vector<int>> positions;
-        for (const auto &pos : successors[bias_pos]->positions)
-        {
-            std::vector<int> position = {(int)(bias_pos)};
-            position.insert(position.end(), pos.begin(), pos.end());
-            positions.push_back(position);
-        }
-        this->indices.insert(this->indices.end(), _indices.begin(), _indices.end());
-        this->positions.insert(this->positions.end(), positions.begin(), positions.end());
-    }
-
-    this->_is_built = true;
-    this->_is_hashed = false;
-    this->_indices_normalized = nullptr;
-    this->_hash_value = hash(*this);
-}
-
-pInt IndexVar::add(int idx, const std::vector<int> &position)
-{
-    auto iv = pInt(new int(idx));
-    // this->_is_built = false;
-    this->_is_hashed = false;
-    this->_indices_normalized = nullptr;
-
-    if (position.empty())
-    {
-        positions.clear();
-        indices.clear();
-    }
-
-    IndexVar *idxvar = this;
-    for (int pos : position)
-    {
-        idxvar = idxvar->successors[pos].get();
-        idxvar->_is_hashed = false;
-        idxvar->_indices_normalized = nullptr;
-    }
-    idxvar->positions.push_back(std::vector<int>());
-    idxvar->indices.push_back(iv);
-
-    return iv;
-}
-
-void IndexVar::remove(const std::vector<int> &position)
-{
-    this->_is_hashed = false;
-    this->_indices_normalized = nullptr;
-    
-    IndexVar *index = this;
-    for (int pos : position)
-    {
-        index = index->successors[pos].get();
-        index->_is_hashed = false;
-        index->_indices_normalized = nullptr;
-    }
-    index->indices.clear();
-    index->positions.clear();
+#include "IndexVar.h"
+#include <memory>
+#include <unordered_map>
+#include <map>
+#include <set>
+#include <unordered_set>
+#include <vector>
+#include "./hash.h"
+
+using std::vector;
+
+using namespace INDEXVAR;
+using UTILS::hash;
+
+/* Helper Functions */
+
+inline std::shared_ptr<vector<int>> _normalize(const vector<int> &variables)
+{
+    // Number the variables in the order of their first occurrence, so that renaming them makes no difference.
+    std::map<int, int> mapping;
+    for (const auto &p : variables)
+    {
+        mapping.emplace(p, (int)mapping.size());
+    }
+
+    auto result = std::make_shared<vector<int>>();
+    for (const auto &p : variables)
+    {
+        result->push_back(mapping[p]);
+    }
+
+    return result;
+}
+
+inline std::shared_ptr<vector<int>> _normalize(const vector<pInt> &indices)
+{
+    std::vector<int> variables;
+    for (const auto &var : indices)
+    {
+        variables.push_back(*var);
+    }
+
+    return _normalize(variables);
+}
+
+/* IndexVar */
+
+std::shared_ptr<vector<int>> IndexVar::normalize()
+{
+    /*
+    normalize the index, so that the index is unique in terms of one statement which has variable(s).
+    */
+    if (this->_indices_normalized == nullptr)
+    {
+        this->_indices_normalized = _normalize(this->indices);
+    }
+
+    return this->_indices_normalized;
+}
+
+void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
+{
+    father->_is_hashed = false;
+    father->_is_built = false;
+    father->_indices_normalized = nullptr;
+
+    father->successors.push_back(son);
+    son->predecessor = father;
+
+    if (!generate_pos)
+        return;
+
+    int bias_pos = father->successors.size() - 1;
+    auto &indices = son->indices;
+    std::vector<std::vector<int>> positions;
+    for (const auto &pos : son->positions)
+    {
+        std::vector<int> position = {bias_pos};
+        position.insert(position.end(), pos.begin(), pos.end());
+        positions.push_back(position);
+    }
+    father->indices.insert(father->indices.end(), indices.begin(), indices.end());
+    father->positions.insert(father->positions.end(), positions.begin(), positions.end());
+}
+
+void IndexVar::build(bool rebuild)
+{
+    if (!rebuild && this->_is_built)
+        return;
+
+    if (successors.size() > 0)
+    {
+        indices.clear();
+        positions.clear();
+    }
+
+    for (int bias_pos = 0; bias_pos < successors.size(); bias_pos++)
+    {
+        successors[bias_pos]->build(rebuild);
+        auto &_indices = successors[bias_pos]->indices;
+        std::vector<std::vector<int>> positions;
+        for (const auto &pos : successors[bias_pos]->positions)
+        {
+            std::vector<int> position = {(int)(bias_pos)};
+            position.insert(position.end(), pos.begin(), pos.end());
+            positions.push_back(position);
+        }
+        this->indices.insert(this->indices.end(), _indices.begin(), _indices.end());
+        this->positions.insert(this->positions.end(), positions.begin(), positions.end());
+    }
+
+    this->_is_built = true;
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
+    this->_hash_value = hash(*this);
+}
+
+pInt IndexVar::add(int idx, const std::vector<int> &position)
+{
+    auto iv = pInt(new int(idx));
+    // this->_is_built = false;
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
+
+    if (position.empty())
+    {
+        positions.clear();
+        indices.clear();
+    }
+
+    IndexVar *idxvar = this;
+    for (int pos : position)
+    {
+        idxvar = idxvar->successors[pos].get();
+        idxvar->_is_hashed = false;
+        idxvar->_indices_normalized = nullptr;
+    }
+    idxvar->positions.push_back(std::vector<int>());
+    idxvar->indices.push_back(iv);
+
+    return iv;
+}
+
+void IndexVar::remove(const std::vector<int> &position)
+{
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
+    
+    IndexVar *index = this;
+    for (int pos : position)
+    {
+        index = index->successors[pos].get();
+        index->_is_hashed = false;
+        index->_indices_normalized = nullptr;
+    }
+    index->indices.clear();
+    index->positions.clear();
 }
\ No newline at end of file
-- 
2.43.0


From 912da1631deed83596e747791378d76b4a418657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 34/40] fix: a merged evidential base exceeded an odd maximum
 length by one

---
 Narsese/include/Evidence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index 9c99836..1d49399 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -53,7 +53,7 @@ namespace EVIDENCE
                     it2++;
                     i++;
                 }
-                if (it1 != base1._set->end())
+                if (i < base_length && it1 != base1._set->end())
                 {
                     base._set->insert(*it1);
                     it1++;
-- 
2.43.0


From 6fa3124214d35b019159559b723a4ad65b02819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 35/40] fix: iterating over the components of a term read freed
 memory once the term was gone

---
 Narsese/src/Term.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index c3494ff..7340c82 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -113,7 +113,10 @@ namespace TERM
                     else if (self->is_statement())
                         return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
                     else if (self->is_compound())
-                        return py::make_iterator(self->terms->begin(), self->terms->end());
+                    {
+                        std::vector<pTerm> components = *self->terms;
+                        return py::iter(py::cast(components));
+                    }
                     else
                     {
                         PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-- 
2.43.0


From 77d58d4256ca686e499abb1e0c9f2da009f0a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 36/40] fix: quality_from_truth(None) dereferenced a null
 pointer

---
 Narsese/src/Budget.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Budget.cpp b/Narsese/src/Budget.cpp
index 2913b3a..bf4d4e0 100755
--- a/Narsese/src/Budget.cpp
+++ b/Narsese/src/Budget.cpp
@@ -13,7 +13,7 @@ namespace BUDGET
             .def_readwrite("p", &Budget::priority)
             .def_readwrite("d", &Budget::durability)
             .def_readwrite("q", &Budget::quality)
-            .def_static("quality_from_truth", [](TRUTH::pTruth t) { return Budget::quality_from_truth(*t); })
+            .def_static("quality_from_truth", [](const TRUTH::Truth &t) { return Budget::quality_from_truth(t); })
             .def("__repr__", [](Budget& self)
                  { return fmt::format("<Budget: ${:.2f};{:.2f};{:.2f}$>", self.priority, self.durability, self.quality); });
     }
-- 
2.43.0


From 145f7381f4dd5a6b9292ff17520f1e9e8766e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 37/40] fix: a judgement or goal made without a truth value
 crashed when shown

---
 Narsese/src/Sentence.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index c62fba8..cf7bc38 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -33,6 +33,11 @@ namespace SENTENCE
             .def(py::init(
                 [](TERM::pTerm term, PUNCTUATION::Punctuation _punct, pTruth _truth, pStamp _stamp)
                 {
+                    // a judgement or goal always has a truth value: the same default as the native constructors
+                    if (_truth == nullptr && _punct == PUNCTUATION::Judgement)
+                        return pSentence(new Judgement(term, nullptr, _stamp));
+                    if (_truth == nullptr && _punct == PUNCTUATION::Goal)
+                        return pSentence(new Goal(term, nullptr, _stamp));
                     return SENTENCE::Sentence::create(term, _punct, _truth, _stamp);
                 }), py::arg("term"), py::arg("punct"), py::arg("truth"), py::arg("stamp"))
             // .def("__repr__", &pSentence::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-- 
2.43.0


From 5929e656d631097c492a5f94b7776d5f5847872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 38/40] fix: a goal made as a plain sentence was shown through
 a reference beyond its end

---
 Interpreter/src/Interpreter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c85aa2..a68a67e 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -260,12 +260,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     {
         if (sentence.is_judgement())
         {
-            const auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         else if (sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
@@ -277,12 +277,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     {
         if (sentence.is_judgement())
         {
-            auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         else if (sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
-- 
2.43.0


From d88287c1186f393ad4fb361842388afe5fcc0d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 39/40] fix: words with non-ASCII characters, part of the
 written grammar, were rejected

---
 Narsese/Parser/narsese.cpp | 7 +++++--
 Narsese/Parser/narsese.h   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index a5a3e2f..f217ee6 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -22,7 +22,9 @@ UNICC_SCHAR* _parser::get_lexem( void )
 #else
 	size_t		size;
 
-	size = wcstombs( (char*)NULL, this->buf, 0 );
+	/* A character is one byte of the (UTF-8) input */
+	for( size = 0; this->buf[size]; size++ )
+		;
 
 	free( this->lexem );
 
@@ -33,7 +35,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	wcstombs( this->lexem, this->buf, size + 1 );
+	for( size_t i = 0; i <= size; i++ )
+		this->lexem[i] = (UNICC_SCHAR)this->buf[i];
 #endif
 
 #if UNICC_DEBUG	> 2
diff --git a/Narsese/Parser/narsese.h b/Narsese/Parser/narsese.h
index eb06ecf..ef0a1ab 100644
--- a/Narsese/Parser/narsese.h
+++ b/Narsese/Parser/narsese.h
@@ -206,7 +206,7 @@ public:
 		{
 			return EOF;
 		}
-		auto ch = *(buffer.c_str() + pointer);
+		auto ch = (unsigned char)*(buffer.c_str() + pointer);
 		pointer ++;
 		return ch;
 	}
-- 
2.43.0


From 982bb5c5cec5b79b0e0376bd3b292d0cf3005b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 40/40] fix: reporting a rejected sentence read beyond the end
 of the input buffer

---
 Narsese/Parser/narsese.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index f217ee6..c20aa1c 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -266,6 +266,7 @@ UNICC_CHAR _parser::get_input( size_t offset )
 						"end-of-file reached\n", UNICC_PARSER );
 #endif
 			this->is_eof = true;
+			*( this->bufend ) = 0; /* keep the buffer terminated */
 			return this->eof;
 		}
 #if UNICC_DEBUG	> 2
@@ -326,7 +327,7 @@ void _parser::clear_input( void )
 #endif
 
 			memmove( this->buf, this->buf + this->len,
-						( ( this->bufend - ( this->buf + this->len ) ) + 1 + 1 )
+						( ( this->bufend - ( this->buf + this->len ) ) + 1 )
 							* sizeof( UNICC_CHAR ) );
 			this->bufend = this->buf + ( this->bufend - ( this->buf + this->len ) );
 
-- 
2.43.0

