From b25a476afd5e5f5b75db7f21ff52ac134ec63ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:40 +0000
Subject: [PATCH 01/24] fix: use the convergence tolerance as stopping rule of
 the multinomial supervised E step

The probability of computing the likelihood was passed to converged()
instead of e_step_tolerance_.
---
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 9c8168d..1bf32b4 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -55,7 +55,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
 
     for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
         // check for early stopping
-        if (this->converged(gamma_old, gamma, compute_likelihood_)) {
+        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
             break;
         }
         gamma_old = gamma;
-- 
2.43.0


From e4a8dee084a71012a516df98173dd12e6f10d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:07 +0000
Subject: [PATCH 02/24] fix: report a zero gradient norm before the first
 gradient descent step

The progress callback was given the norm of an uninitialized matrix the
first time it was called.
---
 include/ldaplusplus/optimization/GradientDescent.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index e4a8107..453f8a6 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -185,7 +185,7 @@ class GradientDescent
          */
         void minimize(const ProblemType &problem, Eigen::Ref<ParameterType> x0) {
             // allocate memory for the gradient
-            ParameterType grad(x0.rows(), x0.cols());
+            ParameterType grad = ParameterType::Zero(x0.rows(), x0.cols());
 
             // Keep the value in this variable
             Scalar value = problem.value(x0);
-- 
2.43.0


From b281bcd0a82a797b6ea32284d224d36d13b5e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:44 +0000
Subject: [PATCH 03/24] fix: honour the class weights in the online supervised
 M step

The weights given to FastOnlineSupervisedMStep were stored but never
passed to the logistic regression, which silently used weights derived
from each minibatch instead.
---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 0485893..8693615 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -112,6 +112,7 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
         y_,
+        class_weights_,
         regularization_penalty_
     );
     mlr.gradient(eta, eta_gradient_);
-- 
2.43.0


From a0bec6ed790843e842adafb6dbbd61e866eddcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:02 +0000
Subject: [PATCH 04/24] fix: ignore unlabeled (negative class) documents when
 computing the class priors

---
 src/ldaplusplus/Document.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 937245d..8e431b6 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -101,6 +101,10 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
+        // negative classes mark unlabeled documents (semi supervised learning)
+        if (y_[i] < 0) {
+            continue;
+        }
         priors_[y_[i]] ++;
     }
     priors_.array() /= priors_.sum();
-- 
2.43.0


From 86b9144ac7bc9cf8328e75f1cf21f1ea91eb0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:50 +0000
Subject: [PATCH 05/24] fix: weigh every word of the ELBO by its count

---
 src/ldaplusplus/e_step_utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 09c69a1..4f51b55 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -19,8 +19,9 @@ Scalar compute_unsupervised_likelihood(
 
     Scalar likelihood = 0;
 
-    // Make sure we ignore phi for words that are not in the document
-    MatrixX<Scalar> phi2 = phi.array().rowwise() * (X.array() != 0).cast<Scalar>().transpose();
+    // Every occurrence of a word counts, namely we ignore phi for words that
+    // are not in the document
+    MatrixX<Scalar> phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
 
     // \Psi(\gamma) - \Psi(\sum_j \gamma)
     VectorX<Scalar> t1 = gamma.unaryExpr(cwise_digamma).array() - math_utils::digamma(gamma.sum());
@@ -30,16 +31,15 @@ Scalar compute_unsupervised_likelihood(
     likelihood += std::lgamma(alpha.sum()) - alpha.unaryExpr(cwise_lgamma).sum();
 
     // E_q[log p(z | \theta)]
-    likelihood += (phi2.transpose() * t1).sum();
+    likelihood += (phi_scaled.transpose() * t1).sum();
 
     // E_q[log p(w | z, \beta)]
-    auto phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
-    likelihood += (phi_scaled * (beta.array() + 1e-44).log()).sum();
+    likelihood += (phi_scaled.array() * (beta.array() + 1e-44).log()).sum();
 
     // H(q)
     likelihood += -((gamma.array() - 1).matrix().transpose() * t1).value();
     likelihood += -std::lgamma(gamma.sum()) + gamma.unaryExpr(cwise_lgamma).sum();
-    likelihood += -(phi2.array() * (phi2.array() + 1e-44).log()).sum();
+    likelihood += -(phi_scaled.array() * (phi.array() + 1e-44).log()).sum();
     
     return likelihood;
 }
-- 
2.43.0


From 8c63c200a3a71046755014abdbb5a1b84c58b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:02 +0000
Subject: [PATCH 06/24] fix: do not index the exponential lookup table with NaN

---
 include/ldaplusplus/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/utils.hpp b/include/ldaplusplus/utils.hpp
index ab772c7..07022bc 100644
--- a/include/ldaplusplus/utils.hpp
+++ b/include/ldaplusplus/utils.hpp
@@ -362,7 +362,8 @@ static inline Scalar fast_exp(Scalar x) {
     if (x < 0)
         return 1/fast_exp(-x);
 
-    if (x > 100)
+    // negated so that NaN is propagated instead of used to index the table
+    if (!(x <= 100))
         return std::exp(x);
 
     int cnt = 0;
-- 
2.43.0


From be94031c2b99bcd9881c590d95fe76449bbbcb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:02 +0000
Subject: [PATCH 07/24] fix: do not read out of bounds in the supervised E step
 of a document without words

---
 src/ldaplusplus/e_step_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 4f51b55..b34aced 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -87,6 +87,10 @@ Scalar compute_supervised_likelihood(
         if (X[n] > 0)
             break;
     }
+    if (n < 0) {
+        // there are no words thus all the classes are equally probable
+        return likelihood - std::log(static_cast<Scalar>(eta.cols()));
+    }
     likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
     likelihood += - std::log((h.transpose() * phi.col(n)).value());
 
@@ -230,6 +234,9 @@ void compute_supervised_phi_gamma(
 
     // Compute the products that will allow us to compute and update h
     for (int n=0; n<X.rows(); n++) {
+        if (X[n] == 0)
+            continue;
+
         exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);
         //exp_eta_scaled = (eta * X_ratio[n]).array().exp();
         products.array() *= (exp_eta_scaled.transpose() * phi.col(n)).array();
-- 
2.43.0


From 319e8f2af9afacc20c65c3b24ff45bf935fe8cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:02 +0000
Subject: [PATCH 08/24] fix: handle documents without words and very long
 documents in the supervised M step

---
 src/ldaplusplus/em/SupervisedMStep.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 0d08756..625f7b1 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -52,12 +52,17 @@ void SupervisedMStep<Scalar>::doc_m_step(
 
     // get the expected_z_bar
     expected_z_bar_.col(docs_) = gamma - alpha;
-    expected_z_bar_.col(docs_).array() /= N;
+    if (N > 0) {
+        expected_z_bar_.col(docs_).array() /= N;
+    }
 
     // get the variance_z_bar
     MatrixX phi_scaled = phi.array().rowwise() * X.cast<Scalar>().array().transpose();
     variance_z_bar_[docs_] = phi_scaled * phi_scaled.transpose();
-    variance_z_bar_[docs_] *= 1.0/(N * N);
+    if (N > 0) {
+        // N * N might overflow an int for long documents
+        variance_z_bar_[docs_] *= 1.0/(static_cast<Scalar>(N) * N);
+    }
 
     docs_ += 1;
 }
-- 
2.43.0


From 1466e5f8c321b6a831c83d4fde13474c748ad75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:02 +0000
Subject: [PATCH 09/24] fix: do not divide by zero in the online supervised M
 step of a document without words

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 8693615..3fe5aa7 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -74,7 +74,10 @@ void FastOnlineSupervisedMStep<Scalar>::doc_m_step(
 
     // Supervised suff stats
     expected_z_bar_.col(docs_seen_so_far_) = gamma - alpha;
-    expected_z_bar_.col(docs_seen_so_far_).array() /= expected_z_bar_.col(docs_seen_so_far_).sum();
+    auto words_in_doc = expected_z_bar_.col(docs_seen_so_far_).sum();
+    if (words_in_doc != 0) {
+        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
+    }
     y_(docs_seen_so_far_) = y;
 
     // mark another document as seen
-- 
2.43.0


From 1c9ab88f1a3f1b8acfb866050c1d97b1795beb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:15 +0000
Subject: [PATCH 10/24] fix: do not divide by zero in the decision function of
 a document without words

---
 src/ldaplusplus/LDA.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index 606e8b0..a68c191 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -6,6 +6,7 @@
 
 #include "ldaplusplus/LDA.hpp"
 #include "ldaplusplus/events/ProgressEvents.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 
@@ -193,7 +194,7 @@ typename LDA<Scalar>::MatrixX LDA<Scalar>::decision_function(const MatrixX &X) {
     // the linear model is trained on
     // E_q[\bar z] = \fraction{\gamma - \alpha}{\sum_i \gamma_i}
     MatrixX expected_z_bar = X.colwise() - model->alpha;
-    expected_z_bar.array().rowwise() /= expected_z_bar.array().colwise().sum();
+    math_utils::normalize_cols(expected_z_bar);
 
     // finally return the linear scores like a boss
     return model->eta.transpose() * expected_z_bar;
-- 
2.43.0


From be0c54f5fcfb6f4b97106bc8dae0509ad420bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:48 +0000
Subject: [PATCH 11/24] fix: SupervisedEStep computes the likelihood from an
 initialised h when no iteration is made

---
 src/ldaplusplus/em/SupervisedEStep.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index c6f6b56..007e734 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -46,8 +46,10 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
     MatrixX phi = MatrixX::Constant(num_topics, voc_size, 1.0/num_topics);
     VectorX gamma = alpha.array() + static_cast<Scalar>(num_words)/num_topics;
 
-    // allocate memory for helper variables
+    // allocate memory for helper variables, h needs a value even if there are no
+    // iterations because the likelihood depends on it
     VectorX h(num_topics);
+    e_step_utils::compute_h<Scalar>(X, X_ratio, eta, phi, h);
 
     // to check for convergence
     VectorX gamma_old = VectorX::Zero(num_topics);
-- 
2.43.0


From ab742afec5d8df519b104a7aa8c062bf8410c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:48 +0000
Subject: [PATCH 12/24] fix: LDABuilder refuses to build a model whose eta and
 beta have different numbers of topics

---
 include/ldaplusplus/LDABuilder.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ldaplusplus/LDABuilder.hpp b/include/ldaplusplus/LDABuilder.hpp
index 8c33fba..e8626c6 100644
--- a/include/ldaplusplus/LDABuilder.hpp
+++ b/include/ldaplusplus/LDABuilder.hpp
@@ -800,6 +800,15 @@ class LDABuilder : public LDABuilderInterface<Scalar>
                                          "Call initialize_eta_*()");
             }
 
+            if (
+                model_parameters_->eta.rows() != 0 &&
+                model_parameters_->eta.rows() != model_parameters_->beta.rows()
+            ) {
+                throw std::runtime_error("The number of topics in eta and beta does "
+                                         "not match. Call initialize_eta_*() again "
+                                         "after changing the topics");
+            }
+
             return LDA<Scalar>(
                 model_parameters_,
                 e_step_,
-- 
2.43.0


From 18ed49ac7f0b840b9b3e82fa4ab757781c5c7378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:35 +0000
Subject: [PATCH 13/24] fix: a listener added again after its removal is not
 removed by the pending removal

---
 src/ldaplusplus/events/Events.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c9c7a27..ccbf7f3 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -49,7 +49,16 @@ void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
 void ThreadSafeEventDispatcher::add_listener(
     std::shared_ptr<EventListenerInterface> listener
 ) {
-    std::lock_guard<std::mutex> l(listeners_mutex_);
+    std::unique_lock<std::mutex> l1(listeners_mutex_, std::defer_lock);
+    std::unique_lock<std::mutex> l2(deleted_listeners_mutex_, std::defer_lock);
+
+    std::lock(l1, l2);
+
+    // perform a pending removal now, otherwise it would also remove the
+    // listener that is being added
+    if (deleted_listeners_.erase(listener) > 0) {
+        listeners_.remove(listener);
+    }
 
     listeners_.push_back(listener);
 }
-- 
2.43.0


From 5aad62d54331c5a848873f08971b32f7fd37ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:23 +0000
Subject: [PATCH 14/24] fix: a listener may remove itself from an
 EventDispatcher while handling an event

---
 src/ldaplusplus/events/Events.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index ccbf7f3..5d9a274 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -40,7 +40,9 @@ void EventDispatcher::remove_listener(std::shared_ptr<EventListenerInterface> li
 
 
 void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
-    for (auto l : listeners_) {
+    // copy the listeners list because they may remove themselves
+    auto listeners = listeners_;
+    for (auto l : listeners) {
         l->on_event(event);
     }
 }
-- 
2.43.0


From df8c220311dab05ff52514875cc06a78a7f31ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:28 +0000
Subject: [PATCH 15/24] fix: LDA with zero workers (hardware_concurrency() may
 be zero) uses one instead of waiting forever

---
 src/ldaplusplus/LDA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index a68c191..86c5204 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -22,7 +22,7 @@ LDA<Scalar>::LDA(
     e_step_(e_step),
     m_step_(m_step),
     iterations_(iterations),
-    workers_(workers),
+    workers_(std::max<size_t>(workers, 1)), // no workers would never finish
     event_dispatcher_(std::make_shared<events::SameThreadEventDispatcher>())
 {
     set_up_event_dispatcher();
-- 
2.43.0


From ed72d55092d19205a15166b82c123b02fb0a9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:23 +0000
Subject: [PATCH 16/24] fix: swap_endianess writes the swapped elements back,
 so arrays of the other byte order are read correctly

---
 include/ldaplusplus/NumpyFormat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 3c90c44..550ebbd 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -69,6 +69,8 @@ namespace numpy_format {
             for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                 std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
             }
+
+            data[i] = d.v;
         }
     }
 
-- 
2.43.0


From 8c959bab5fc7c98c4f5a3dd157292e92d2999247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:23 +0000
Subject: [PATCH 17/24] fix: do not read out of bounds when converting a
 zero-dimensional numpy array

---
 include/ldaplusplus/NumpyFormat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 550ebbd..fcf6e27 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -236,7 +236,7 @@ namespace numpy_format {
             template <int Rows, int Cols, int Options>
             operator Eigen::Matrix<Scalar, Rows, Cols, Options>() const {
                 // get the needed rows, cols
-                int rows = shape_[0];
+                int rows = shape_.empty() ? 1 : shape_[0];
                 int cols = 1;
                 for (size_t i=1; i<shape_.size(); i++) {
                     cols *= shape_[i];
-- 
2.43.0


From cb01a46b03e6c31d6d23620189a6bf2c2ecb9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:22 +0000
Subject: [PATCH 18/24] fix: refuse truncated files and files that are not in
 the numpy format instead of yielding garbage

---
 include/ldaplusplus/NumpyFormat.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index fcf6e27..4fc6ee1 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -293,8 +293,15 @@ namespace numpy_format {
                     );
                 }
 
+                // it should at least start as a numpy array
+                if (!is || std::string(MAGIC_AND_VERSION, 6) != "\x93NUMPY") {
+                    throw std::runtime_error(
+                        "The file is not in the numpy format"
+                    );
+                }
+
                 // read the header len
-                uint16_t header_len;
+                uint16_t header_len = 0;
                 is.read(reinterpret_cast<char *>(&header_len), 2);
                 if (is_big_endian()) {
                     swap_endianess(&header_len, 1);
@@ -306,6 +313,12 @@ namespace numpy_format {
                 buffer[header_len] = 0;
                 std::string header(&buffer[0]);
 
+                if (!is) {
+                    throw std::runtime_error(
+                        "The file is truncated and cannot be read"
+                    );
+                }
+
                 // we can parse the header efficiently using the fact that the
                 // specification requires the dictionary to be passed by
                 // pprint.pformat()
@@ -351,6 +364,11 @@ namespace numpy_format {
                 // read the data
                 data.data_.resize(N);
                 is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));
+                if (!is) {
+                    throw std::runtime_error(
+                        "The file is truncated and cannot be read"
+                    );
+                }
 
                 // fix the endianess
                 if (endianness != is_big_endian()) {
-- 
2.43.0


From d086b0db41b400c790901b42eebe0b5c5a8b315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:05 +0000
Subject: [PATCH 19/24] fix: do not read past the end of a short numpy header

---
 include/ldaplusplus/NumpyFormat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 4fc6ee1..6af238c 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -336,7 +336,7 @@ namespace numpy_format {
                 }
 
                 // parse contiguity type
-                data.fortran_ = header[34] == 'T';
+                data.fortran_ = header.at(34) == 'T';
 
                 // parse shape
                 std::string shape = header.substr(
-- 
2.43.0


From c4ced925ad4be1f53a9b5d3a404751d85c57886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:12 +0000
Subject: [PATCH 20/24] fix: --continue_from_unsupervised loads the model it is
 given, not that of --continue

---
 src/applications/fslda.cpp | 2 +-
 src/applications/slda.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/fslda.cpp b/src/applications/fslda.cpp
index 13414ac..fef6ca4 100644
--- a/src/applications/fslda.cpp
+++ b/src/applications/fslda.cpp
@@ -50,7 +50,7 @@ void add_initialization_options(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
diff --git a/src/applications/slda.cpp b/src/applications/slda.cpp
index 1a02f81..04bfa40 100644
--- a/src/applications/slda.cpp
+++ b/src/applications/slda.cpp
@@ -53,7 +53,7 @@ LDA<double> create_lda_for_train(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
-- 
2.43.0


From 2e3fa3a25a856909b6827c6562c77a752d9d31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:12 +0000
Subject: [PATCH 21/24] fix: accumulate the likelihood of an epoch without
 truncating it to integers

---
 include/applications/EpochProgress.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/applications/EpochProgress.hpp b/include/applications/EpochProgress.hpp
index 3bd247f..064fe16 100644
--- a/include/applications/EpochProgress.hpp
+++ b/include/applications/EpochProgress.hpp
@@ -20,7 +20,7 @@ class EpochProgress : public events::EventListenerInterface
 
     private:
        int em_iterations_;
-       int likelihood_;
+       double likelihood_;
        int cnt_likelihoods_;
        int is_first_time_;
 };
-- 
2.43.0


From 74dbf4676496400560a204d5b0bb5f1319b02934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:00 +0000
Subject: [PATCH 22/24] fix: reject numpy format versions above 127 (char may
 be signed)

---
 include/ldaplusplus/NumpyFormat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 6af238c..fd191b4 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -279,7 +279,7 @@ namespace numpy_format {
                 // read the magic and the version and assert that it is compatible
                 char MAGIC_AND_VERSION[8];
                 is.read(MAGIC_AND_VERSION, 8);
-                if (MAGIC_AND_VERSION[6] > 1) {
+                if (static_cast<uint8_t>(MAGIC_AND_VERSION[6]) > 1) {
                     throw std::runtime_error(
                         "Only version 1 of the numpy format is supported"
                     );
-- 
2.43.0


From d0d9069f57b0e70dafc6db974ee251cf42c8e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:00 +0000
Subject: [PATCH 23/24] fix: reject numpy arrays whose number of elements
 overflows an int

---
 include/ldaplusplus/NumpyFormat.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index fd191b4..a8e9490 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -2,6 +2,8 @@
 #define _LDAPLUSPLUS_NUMPY_FORMAT_HPP_
 
 
+#include <algorithm>
+#include <climits>
 #include <cstdint>
 #include <fstream>
 #include <memory>
@@ -358,6 +360,12 @@ namespace numpy_format {
                 // compute the total size of the data
                 int N = 1;
                 for (auto c : data.shape_) {
+                    // arrays are indexed with an int so the size must fit in it
+                    if (c > static_cast<size_t>(INT_MAX / std::max(N, 1))) {
+                        throw std::runtime_error(
+                            "The array is too large and cannot be read"
+                        );
+                    }
                     N *= c;
                 }
 
-- 
2.43.0


From 21e582094f2f4ba4c722b7e69188f32789fef72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:18 +0000
Subject: [PATCH 24/24] fix: a labelled corpus without documents or without any
 label

EigenClassificationCorpus took the maximum of an empty label vector (a null
read) and sized the priors negatively when every label was below -1.
---
 src/ldaplusplus/Document.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 8e431b6..74611dd 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <numeric>
 #include <utility>
 
@@ -97,7 +98,8 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 ) : indices_(X.cols(), random_state),
     X_(X),
     y_(y),
-    priors_(y.maxCoeff()+1)
+    // there may be no documents or no labeled documents at all
+    priors_(y.rows() > 0 ? std::max(y.maxCoeff()+1, 0) : 0)
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-- 
2.43.0

