From a6d4d6b1eef474106ffa64b084fa8e048f27cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 01/32] fix: bag generators return only complete bags,
 generated for the data and parameters of the call

A failed generation left partial prevalences_ and indexes_ (zeros) that later
calls returned as valid bags, and stored bags were returned for any other
dataset or number of bags. The bags are now generated by a copy of the object,
stored when all of them are complete, and reused only for the same request.
The parameters (bag_size, random_state, alphas, min_prevalence) are not altered.
---
 quantificationlib/bag_generator.py | 52 ++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index e5bcb22..7b79951 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -13,6 +13,7 @@ import numpy as np
 import numbers
 
 from abc import ABCMeta
+from copy import copy
 
 from sklearn.utils import check_X_y
 from sklearn.metrics.pairwise import rbf_kernel
@@ -23,9 +24,42 @@ from quantificationlib.multiclass.df import compute_bincuts
 class BagGenerator(metaclass=ABCMeta):
     """ Base class for bag generator classes
     """
+    #  last complete generation: (request, prevalences, indexes)
+    bags_ = None
+
     def generate_bags(self, X, y):
         raise NotImplementedError()
 
+    def _bags_for(self, X, y, data):
+        """ Return the stored bags if the last complete generation was for the same parameters and data, otherwise
+            generate them
+
+            The bags are generated by a copy of the object. Thus, the parameters are not altered and the bags are stored
+            only when all of them have been successfully generated
+
+            Parameters
+            ----------
+            X : array-like, shape (n_examples, n_features)
+                Data
+
+            y : array-like, shape (n_examples, )
+                True classes
+
+            data : tuple of array-like
+                The data on which the bags depend
+        """
+        params = [value for name, value in sorted(vars(self).items()) if name[-1] != '_' and name != 'verbose']
+        request = [np.array(value) for value in params + list(data)]
+
+        stored = self.bags_
+        if stored is None or not all(np.array_equal(new, old) for new, old in zip(request, stored[0])):
+            prevalences, indexes = copy(self)._generate_bags(X, y)
+            stored = (request, prevalences, indexes)
+            self.bags_ = stored
+            self.prevalences_ = prevalences
+            self.indexes_ = indexes
+        return stored[1], stored[2]
+
 
 class PriorShift_BagGenerator(BagGenerator):
     """ Generate bags with prior probability shift
@@ -134,9 +168,11 @@ class PriorShift_BagGenerator(BagGenerator):
                 is not implemented or when the parameters for the selected method are incorrect
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
+        return self._bags_for(X, y, data=(y, ))
 
+    def _generate_bags(self, X, y):
+        """ Generate the bags (see generate_bags), always called on a copy of the object
+        """
         if isinstance(self.random_state, (numbers.Integral, np.integer)):
             self.random_state = np.random.RandomState(self.random_state)
         if not isinstance(self.random_state, np.random.RandomState):
@@ -394,9 +430,11 @@ class CovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
+        return self._bags_for(X, y, data=(X, y))
 
+    def _generate_bags(self, X, y):
+        """ Generate the bags (see generate_bags), always called on a copy of the object
+        """
         if isinstance(self.random_state, (numbers.Integral, np.integer)):
             self.random_state = np.random.RandomState(self.random_state)
         if not isinstance(self.random_state, np.random.RandomState):
@@ -528,9 +566,11 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
+        return self._bags_for(X, y, data=(X, y))
 
+    def _generate_bags(self, X, y):
+        """ Generate the bags (see generate_bags), always called on a copy of the object
+        """
         n_bags_prior = self.n_bags // 2
         n_bags_covariate = self.n_bags - n_bags_prior
         prior = PriorShift_BagGenerator(n_bags=n_bags_prior, bag_size=self.bag_size,
-- 
2.43.0


From 47ed31d215db10c6db5e849770e6ba4a844ae1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 02/32] fix: Dirichlet bags are drawn from the random_state of
 the generator

They were drawn from NumPy's global random generator, so they were not
reproducible with a seed.
---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 7b79951..3410b51 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -325,7 +325,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 if len(self.alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(self.alphas, size=self.n_bags).transpose()
+        self.prevalences_ = self.random_state.dirichlet(self.alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
-- 
2.43.0


From 35ecc6171563828361d0f67e0adaa65f227c2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 03/32] fix: bags with min_prevalence in multiclass problems
 are always generated or rejected

Generation looped forever when the minimum prevalences left no (or almost no)
combination that the rejection sampling could accept, e.g. [0.3, 0.4, 0.3] or
0.4 with three classes. The minimum number of examples of each class is now
reserved and only the rest of the bag is distributed.
---
 quantificationlib/bag_generator.py | 45 +++++++++++++++++-------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 3410b51..896b769 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -237,9 +237,9 @@ class PriorShift_BagGenerator(BagGenerator):
 
         #  computing min number of examples for each class and low value (for the first class) and the
         #  high value (for the last class)
-        #  The idea is to perform a efficient comprobation. For binary problems all random generation will be correct
-        #  becuase the values low-high are fixed appropriately. For multiclass problems (min_examples will be
-        #  not None) we need to check it
+        #  For binary problems all random generation will be correct becuase the values low-high are fixed
+        #  appropriately. For multiclass problems (min_examples will be not None) the min number of examples of each
+        #  class are reserved and only the rest of examples (n_free) are randomly distributed
         if self.min_prevalence is None:
             min_nexamples = None
             low = 0
@@ -259,13 +259,19 @@ class PriorShift_BagGenerator(BagGenerator):
         elif np.isscalar(self.min_prevalence):
             #  multiclass problem, min prevalence equal to all classes
             min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * self.bag_size)
-            low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
         else:
             #  multiclass problem, different prevalences
             min_nexamples = np.round(self.min_prevalence * self.bag_size)
-            low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+
+        n_free = self.bag_size
+        if min_nexamples is not None:
+            min_nexamples = min_nexamples.astype(int)
+            n_free = self.bag_size - np.sum(min_nexamples)
+            if n_free < 0:
+                raise ValueError('The values for min_prevalence cannot be satisfied with bags of %d examples'
+                                 % self.bag_size)
+            low = 0
+            high = n_free + 1
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
@@ -273,21 +279,20 @@ class PriorShift_BagGenerator(BagGenerator):
         while n_bag < self.n_bags:
             # Kraemer method:
             ps = self.random_state.randint(low, high, n_classes - 1)
-            ps = np.append(ps, [0, self.bag_size])
+            ps = np.append(ps, [0, n_free])
             ps = np.diff(np.sort(ps))  # number of samples for each class
+            if min_nexamples is not None:
+                ps = ps + min_nexamples
+
+            self.prevalences_[:, n_bag] = ps / self.bag_size  # to obtain prevalences
+            position = 0
+            for cls, n_examples in zip(classes, np.array(ps)):
+                if n_examples != 0:
+                    indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                    self.indexes_[position:position+len(indexes), n_bag] = indexes
+                    position = position + len(indexes)
 
-            #  checking if the combination is correct, only needed in multiclass problems. Only the values for the
-            #  classes in the middle must be checked
-            if min_nexamples is None or (ps[1:-1] >= min_nexamples[1:-1]).all():
-                self.prevalences_[:, n_bag] = ps / self.bag_size  # to obtain prevalences
-                position = 0
-                for cls, n_examples in zip(classes, np.array(ps)):
-                    if n_examples != 0:
-                        indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
-                        self.indexes_[position:position+len(indexes), n_bag] = indexes
-                        position = position + len(indexes)
-
-                n_bag = n_bag + 1
+            n_bag = n_bag + 1
         return self.prevalences_, self.indexes_
 
     def _generate_dirichlet(self, X, y):
-- 
2.43.0


From bcab627bfcef07a6f9b73a2091823d12e06c7cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 04/32] fix: EoQ does not change the number of bags of the bag
 generator it is given

The generator (by default the same object for all the ensembles) can be shared
with other quantifiers, whose bags changed after fitting the ensemble.
---
 quantificationlib/ensembles/eoq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 537bb09..d93f7d3 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -229,8 +229,10 @@ class EoQ(WithoutClassifiers):
             if not isinstance(self.bag_generator, BagGenerator):
                 raise ValueError("Invalid bag generaror object")
 
-            self.bag_generator.n_bags = self.n_quantifiers
-            self.prevalences_, self.indexes_ = self.bag_generator.generate_bags(X, y)
+            #  the generator can be shared with other objects, its parameters must not change
+            bag_generator = deepcopy(self.bag_generator)
+            bag_generator.n_bags = self.n_quantifiers
+            self.prevalences_, self.indexes_ = bag_generator.generate_bags(X, y)
         else:
             self.prevalences_ = prevalences
             self.indexes_ = indexes
-- 
2.43.0


From 578bbb331a23942a72f1e93f3b5ad40de063dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 05/32] fix: EnsembleOfClassifiers trains a different estimator
 with each bag, also when it is fitted again

All the bags were used to train the same base_estimator object, so that all the
members were the model of the last bag (or not, depending on the backend of
joblib). Besides, after a failed fit the object could not be fitted any more,
and a second fit just changed classes_.
---
 quantificationlib/estimators/ensembles.py | 25 ++++++++++-------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 43b2303..2a1bf3e 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -16,6 +16,7 @@ from sklearn.base import BaseEstimator, ClassifierMixin
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
 
+from copy import deepcopy
 from joblib import Parallel, delayed
 
 
@@ -95,24 +96,20 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
             ValueError
                 When base_estimator is None
         """
-        if self.classes_ is None and self.estimators_ is None:
+        if self.base_estimator is None:
+            raise ValueError("An estimator is needed for %s objects", self.__class__.__name__)
 
-            #  estimators_ are not fitted
-            if self.base_estimator is None:
-                raise ValueError("An estimator is needed for %s objects", self.__class__.__name__)
+        X, y = check_X_y(X, y, accept_sparse=True)
 
-            X, y = check_X_y(X, y, accept_sparse=True)
-
-            self.n_estimators_ = indexes.shape[1]
-            # fit the estimator for each binary combination of classes, n_estimators = n_classes -1
-            self.estimators_ = np.empty(self.n_estimators_, dtype=object)
-
-            # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
-            # performance due to the overhead of spawning threads.  See joblib issue #112.
-            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self.base_estimator.fit)(X[indexes[:, n_est], :],
+        # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
+        # performance due to the overhead of spawning threads.  See joblib issue #112.
+        estimators = Parallel(n_jobs=self.n_jobs)(delayed(deepcopy(self.base_estimator).fit)(X[indexes[:, n_est], :],
                                                                                              y[indexes[:, n_est]])
-                                                            for n_est in range(self.n_estimators_))
+                                                  for n_est in range(indexes.shape[1]))
 
+        # the object is fitted only when all the estimators are
+        self.n_estimators_ = len(estimators)
+        self.estimators_ = estimators
         self.classes_ = np.unique(y)
         return self
 
-- 
2.43.0


From 1abc09acc9f83b4bc4ae882340659d6762549d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 06/32] fix: Frank and Hall classifiers are unfitted until all
 their models are trained

After a failed fit classes_ was already set, predict did not raise
NotFittedError and quantifiers using the classifier could not train it again.
The same for the tree of FrankAndHallTreeClassifier, that after a failed second
fit was the tree of the first one.
---
 quantificationlib/estimators/frank_and_hall.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 0d56f10..acb7626 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -107,7 +107,8 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
                 last class that belongs to the left group
         """
         if self.verbose:
-            print("Fitting estimator [1..{}] vs [{}..{}]".format(pos_class + 1, pos_class + 2, len(self.classes_)))
+            print("Fitting estimator [1..{}] vs [{}..{}]".format(pos_class + 1, pos_class + 2,
+                                                                           len(self.label_binarizer_.classes_)))
         clf = deepcopy(self.estimator)
         ######
         if self.params_fit is not None:
@@ -149,18 +150,17 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
 
         self.label_binarizer_ = FHLabelBinarizer()
         y_bin_fh = self.label_binarizer_.fit_transform(y)  # column i contains y_bin for estimator i (in FH order)
-        self.classes_ = self.label_binarizer_.classes_
-        n_classes = len(self.classes_)
+        n_classes = len(self.label_binarizer_.classes_)
 
         X, y = check_X_y(X, y, accept_sparse=True)
 
         # fit the estimator for each binary combination of classes, n_estimators = n_classes -1
-        self.estimators_ = np.empty((n_classes - 1,), dtype=object)
-
         # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
         # performance due to the overhead of spawning threads.  See joblib issue #112.
         self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self._fit_binary)(X, y_bin_fh[:, pos_class], pos_class)
                                                         for pos_class in range(n_classes - 1))
+        # the object is fitted only when all the estimators are
+        self.classes_ = self.label_binarizer_.classes_
         return self
 
     def predict(self, X):
@@ -674,6 +674,7 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
             ValueError
                 When estimator is None
         """
+        self.tree_ = None
         super().fit(X, y)
 
         # building the tree
@@ -753,7 +754,7 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
             raise NotFittedError("This instance of %s class is not fitted yet", type(self).__name__)
 
         if self.tree_ is None:
-            raise ValueError('Tree does not exist')
+            raise NotFittedError('Tree does not exist')
 
         n_classes = len(self.classes_)
         n_samples = X.shape[0]
-- 
2.43.0


From 8bac36ddd1ec6340787e105ac13142df1b1544f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 07/32] fix: DDAGClassifier is unfitted until its models are
 trained

OneVsOneClassifier sets classes_ before training the models. When the training
failed predict_proba raised AttributeError instead of NotFittedError.
---
 quantificationlib/estimators/ordinal_ddag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/ordinal_ddag.py b/quantificationlib/estimators/ordinal_ddag.py
index 6478635..3efbf73 100644
--- a/quantificationlib/estimators/ordinal_ddag.py
+++ b/quantificationlib/estimators/ordinal_ddag.py
@@ -261,7 +261,7 @@ class DDAGClassifier(OneVsOneClassifier):
             NotFittedError
                 When the estimators are not fitted yet
         """
-        if self.classes_ is None:
+        if self.classes_ is None or not hasattr(self, 'estimators_'):
             raise NotFittedError("This instance of %s class is not fitted yet", type(self).__name__)
 
         n_classes = len(self.classes_)
-- 
2.43.0


From a62de459015f3f817023908e6c18a80a41915f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 08/32] fix: DDAGClassifier does not modify the predictions
 returned by its estimators

With the method winner_node the probabilities were binarized in the array
returned by the estimator.
---
 quantificationlib/estimators/ordinal_ddag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/estimators/ordinal_ddag.py b/quantificationlib/estimators/ordinal_ddag.py
index 3efbf73..e5351a9 100644
--- a/quantificationlib/estimators/ordinal_ddag.py
+++ b/quantificationlib/estimators/ordinal_ddag.py
@@ -316,6 +316,8 @@ class DDAGClassifier(OneVsOneClassifier):
             if self.predict_method == 'winner_node' and right_class - left_class != 1:
                 # binarizing the probabilities for the prediction method 'winner_node'. This is done in all cases
                 # except for the model previous to the leaves (when right_class-left_class == 1)
+                # the array belongs to the estimator, the changes are made in a copy
+                predictions_left, predictions_right = np.copy(predictions_left), np.copy(predictions_right)
                 predictions_left[predictions_left < 0.5] = 0
                 predictions_left[predictions_left >= 0.5] = 1
                 predictions_right[predictions_right <= 0.5] = 0
-- 
2.43.0


From 6a73053e4053c28ffc777040986875756a52aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 09/32] fix: REG quantifiers train a copy of
 regression_estimator also in binary problems

Two quantifiers sharing the regression_estimator shared the trained model, the
last fitted one changed the predictions of the other.
---
 quantificationlib/multiclass/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index ef72826..16cc30c 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -173,7 +173,7 @@ class REG(six.with_metaclass(ABCMeta)):
         if self.n_classes_ == 2:
             self.dataY_ = self.dataY_[:, 1]
             if self.regression_estimator is not None:
-                self.estimators_ = self.regression_estimator.fit(self.dataX_, self.dataY_)
+                self.estimators_ = deepcopy(self.regression_estimator).fit(self.dataX_, self.dataY_)
             else:
                 self.estimators_ = sm.GLM(endog=self.dataY_, exog=self.dataX_, family=sm.families.Binomial())
                 self.models_ = self.estimators_.fit()
-- 
2.43.0


From 17518914b929640608efe7834460b41de2f73f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 10/32] fix: golden_section_search does not swallow the
 exceptions of the distance function

The search continued with the loss of another point (even after a
KeyboardInterrupt) and returned wrong prevalences.
---
 quantificationlib/search.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 1cb4bfd..99f17a5 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -180,13 +180,7 @@ def golden_section_search(distance_func, mixture_func, test_distrib, tol, a, b,
             h = invphi * h
             c = a + invphi2 * h
             train_mixture_distrib = mixture_func(prevalence=c, **kwargs)
-            try:
-                fc = distance_func(train_mixture_distrib, test_distrib)
-            except:
-                print(train_mixture_distrib)
-                print(c)
-                for key, value in kwargs.items():
-                    print("%s == %s" % (key, value))
+            fc = distance_func(train_mixture_distrib, test_distrib)
         else:
             a = c
             c = d
@@ -194,13 +188,7 @@ def golden_section_search(distance_func, mixture_func, test_distrib, tol, a, b,
             h = invphi * h
             d = a + invphi * h
             train_mixture_distrib = mixture_func(prevalence=d, **kwargs)
-            try:
-                fd = distance_func(train_mixture_distrib, test_distrib)
-            except:
-                print(train_mixture_distrib)
-                print(c)
-                for key, value in kwargs.items():
-                    print("%s == %s" % (key, value))
+            fd = distance_func(train_mixture_distrib, test_distrib)
 
     if fc < fd:
         return fc, np.array([1 - (a + d) / 2, (a + d) / 2])
-- 
2.43.0


From 0aaffe601c06e3de07f1fb3b56210bd9c7ba437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 11/32] fix: global_search raises when the distance function
 has not finite values

It returned 2 as the prevalences.
---
 quantificationlib/search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 99f17a5..947c6d4 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -97,6 +97,9 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
                 minimum_loss = loss
                 p_estimated = p
 
+    if n_mins > 0 and np.isscalar(p_estimated):
+        raise ValueError("Search: the distance function does not return finite values")
+
     if n_mins == 0:
         if losses[0] == losses[100]:
             raise ValueError("Search: there are infinite minima according to the distance function used")
-- 
2.43.0


From f7c733549a596bca042d7558c17a7394a08f310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 12/32] fix: REG quantifiers raise in multiclass problems when
 all the predictions are 0

As in binary problems. They returned NaN prevalences.
---
 quantificationlib/multiclass/regression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 16cc30c..d589130 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -233,7 +233,10 @@ class REG(six.with_metaclass(ABCMeta)):
                     prevalences[n_cls] = self.estimators_[n_cls].predict(bagX.reshape(1, -1))
 
             prevalences = np.clip(prevalences, 0, 1)
-            prevalences = prevalences / float(np.sum(prevalences))
+            if np.sum(prevalences) > 0:
+                prevalences = prevalences / float(np.sum(prevalences))
+            else:
+                raise ValueError("predicted prevalences by object of class %s are all 0", self.__class__.__name__)
             return prevalences.reshape(-1)
 
 
-- 
2.43.0


From d073028140f65e397f70b6cb2414fd3f529d80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 13/32] fix: OneVsRestQuantifier raises when all the
 prevalences predicted by its quantifiers are 0

It returned all the prevalences equal to 0.
---
 quantificationlib/decomposition/multiclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/decomposition/multiclass.py b/quantificationlib/decomposition/multiclass.py
index 93d50cb..a1b7a1e 100644
--- a/quantificationlib/decomposition/multiclass.py
+++ b/quantificationlib/decomposition/multiclass.py
@@ -199,5 +199,7 @@ class OneVsRestQuantifier(UsingClassifiers):
 
         if np.sum(prevalences) > 0:
             prevalences = prevalences / float(np.sum(prevalences))
+        else:
+            raise ValueError("predicted prevalences by object of class %s are all 0" % self.__class__.__name__)
 
         return prevalences
-- 
2.43.0


From 4bcf431cee3c23c051f5e3321b4dc02a335e63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 14/32] fix: DeBias does not correct the prevalence when the
 variance of the training predictions is 0

It divided by 0 and returned NaN (or infinite, then clipped) prevalences when
the classifier always predicts the prevalence of the training set.
---
 quantificationlib/binary/debias.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/binary/debias.py b/quantificationlib/binary/debias.py
index 24f4e57..d0e7b16 100644
--- a/quantificationlib/binary/debias.py
+++ b/quantificationlib/binary/debias.py
@@ -181,7 +181,9 @@ class DeBias(UsingClassifiers):
         if self.verbose > 0:
             print('Class %s: Computing prevalences for testing distribution...' % self.__class__.__name__, end='')
 
-        p = self.train_prevs_[1] + (np.mean(self.predictions_test_, axis=0)[1] - self.train_prevs_[1]) / self.Vt_
+        p = np.mean(self.predictions_test_, axis=0)[1]
+        if self.Vt_ > 0:
+            p = self.train_prevs_[1] + (p - self.train_prevs_[1]) / self.Vt_
         prevalences = np.array([1 - p, p])
 
         prevalences = np.clip(prevalences, 0, 1)
-- 
2.43.0


From a53178c8b0e89bfd6fb86628b6c41a4325c592bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 15/32] fix: PDFOrdinaly raises when the distance is not
 implemented

It returned None as the prevalences.
---
 quantificationlib/ordinal/pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 6fdc646..2b84060 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -279,7 +279,8 @@ class PDFOrdinaly(UsingClassifiers):
             if np.sum(prevalences) > 0:
                 prevalences = prevalences / float(np.sum(prevalences))
         else:
-            prevalences = None
+            raise ValueError('Distance %s not implemented with objects of class %s'
+                             % (self.distance, self.__class__.__name__))
 
         if self.verbose > 0:
             print('done')
-- 
2.43.0


From eee2843e53dd7578d81846b2fa4c2d802b7095ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 16/32] fix: EoQ selects at least one quantifier with the
 strategies based on similarity

With few quantifiers the percentage of selected models could be rounded to 0
and the prediction was NaN.
---
 quantificationlib/ensembles/eoq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index d93f7d3..f37d31f 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -451,13 +451,16 @@ class EoQ(WithoutClassifiers):
                     #  3 dimensions, an EnsembleOfClassifiers is used
                     prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test[:, i, :])
 
+        #  at least one quantifier must be selected
+        n_selected = max(1, round(self.n_quantifiers * self.percentage_of_selected_models))
+
         if self.combination_strategy == 'prevalence_similarity' or self.combination_strategy == 'all':
             p = np.mean(prevalences, axis=0)
             difference = np.zeros(self.n_quantifiers)
             for i in range(self.n_quantifiers):
                 difference[i] = mean_absolute_error(p, prevalences[i])
             indxs = np.argsort(difference)
-            prevalence_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            prevalence_similarity_selected = indxs[0:n_selected]
 
         if self.combination_strategy == 'distribution_similarity' or self.combination_strategy == 'all':
 
@@ -501,7 +504,7 @@ class EoQ(WithoutClassifiers):
                                  % self.base_quantifier.__class__.__name__)
             distances = cdist(test_distribution, self.distributions_, metric=self.distance_bags)
             indxs = np.argsort(distances.squeeze())
-            distribution_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            distribution_similarity_selected = indxs[0:n_selected]
 
         prediction = 0
         if self.combination_strategy == 'mean':
-- 
2.43.0


From 7a15ee52379ed769219228266445a77340029eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 17/32] fix: EoQ raises when the medians of the prevalences are
 all 0

The prediction with the strategies median and all was NaN.
---
 quantificationlib/ensembles/eoq.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index f37d31f..feb17f3 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -512,6 +512,7 @@ class EoQ(WithoutClassifiers):
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'median':
             prediction = np.median(prevalences, axis=0)
+            self.__check_medians(prediction)
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'prevalence_similarity':
             prediction = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
@@ -525,6 +526,7 @@ class EoQ(WithoutClassifiers):
             m0 = m0 / float(np.sum(m0))
             prediction['mean'] = m0
             m1 = np.median(prevalences, axis=0)
+            self.__check_medians(m1)
             m1 = m1 / float(np.sum(m1))
             prediction['median'] = m1
             m2 = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
@@ -536,3 +538,10 @@ class EoQ(WithoutClassifiers):
             prediction['all'] = (m0 + m1 + m2 + m3)/4
 
         return prediction
+
+    def __check_medians(self, medians):
+        """ The medians cannot be normalized when all of them are 0
+        """
+        if np.sum(medians) == 0:
+            raise ValueError("the medians of the prevalences predicted by object of class %s are all 0"
+                             % self.__class__.__name__)
-- 
2.43.0


From bafa8447b30ff82b60af9e6af2ec8af9282f894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 18/32] fix: EoQ raises when the combination strategy is not
 implemented

It returned 0 as the prevalences.
---
 quantificationlib/ensembles/eoq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index feb17f3..89ae4aa 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -536,6 +536,9 @@ class EoQ(WithoutClassifiers):
             m3 = m3 / float(np.sum(m3))
             prediction['distribution_similarity'] = m3
             prediction['all'] = (m0 + m1 + m2 + m3)/4
+        else:
+            raise ValueError("Class %s: combination strategy %s not implemented"
+                             % (self.__class__.__name__, self.combination_strategy))
 
         return prediction
 
-- 
2.43.0


From 67aaa517c88350c238cd45f4213f6f94abd3ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 19/32] fix: crisp predictions and probabilities of the
 positive class can be passed as arrays with one column

np.float does not exist any more, so that fit and predict of the quantifiers
that use crisp predictions raised AttributeError (always, in an EoQ). The
probabilities were converted to 0 and 1 and not to the labels of the classes.
---
 quantificationlib/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index d297236..ea97d56 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -334,12 +334,10 @@ class UsingClassifiers(BaseQuantifier):
             if preds.ndim == 1:
                 preds_mod = np.copy(preds)
             else:
-                preds_mod = np.copy(preds.squeeze())
-            if isinstance(preds_mod[0], np.float):
+                preds_mod = np.copy(preds.ravel())
+            if np.issubdtype(preds_mod.dtype, np.floating):
                 # it contains probs
-                preds_mod[preds_mod >= 0.5] = 1
-                preds_mod[preds_mod < 0.5] = 0
-                return preds_mod.astype(int)
+                return labels.take((preds_mod >= 0.5).astype(int))
             else:
                 return preds_mod
         else:
-- 
2.43.0


From df45b8a4fece9c6d0f56623c835454cb542af074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 20/32] fix: quantifiers raise when the solver of CVXPY ends
 without a solution

predict returned array(None) or raised IndexError.
---
 quantificationlib/optimization.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index c033cb0..6946738 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -73,6 +73,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
         else:
             problem.solve(solver=solver)
 
+        check_solution(problem)
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
         problem.parameters()[0].value = np.squeeze(test_distrib)
@@ -81,6 +82,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
         else:
             problem.solve(warm_start=True, solver=solver)
 
+        check_solution(problem)
         return problem, list(problem.solution.primal_vars.values())[0]
 
 
@@ -124,14 +126,33 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         problem = cvxpy.Problem(objective, contraints)
         problem.solve(solver=solver, feastol=1e6)
 
+        check_solution(problem)
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
         problem.parameters()[0].value = np.squeeze(test_distrib)
         problem.solve(warm_start=True, solver=solver, feastol=1e6)
 
+        check_solution(problem)
         return problem, list(problem.solution.primal_vars.values())[0]
 
 
+def check_solution(problem):
+    """ Check that the solver has found a solution of a CVXPY problem
+
+        Parameters
+        ----------
+        problem : a cvxpy Problem object
+            An already solved problem
+
+        Raises
+        ------
+        ValueError
+            When the solver ended without a solution
+    """
+    if problem.status not in cvxpy.settings.SOLUTION_PRESENT:
+        raise ValueError('The solver has not found a solution, status: %s' % problem.status)
+
+
 ############
 #  Functions for solving optimization problems using QUADPROG (L2 loss function)
 ############
-- 
2.43.0


From 1760815d1a7190c3ce90c5f5b2a8870562b29a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 21/32] fix: a quantifier can be deep-copied and pickled after
 predicting

The optimization problem of CVXPY kept for the next prediction shares
expressions by identity; its copy failed or was not the same problem. It is
dropped from the state of the copy, which creates it again when it predicts.
---
 quantificationlib/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index ea97d56..37d7ba4 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -21,7 +21,13 @@ from sklearn.utils import check_X_y, check_array
 class BaseQuantifier(six.with_metaclass(ABCMeta, BaseEstimator)):
     """ Base class for binary, multiclass and ordinal quantifiers
     """
-    pass
+    def __getstate__(self):
+        """ The optimization problem of CVXPY cannot be correctly copied, it is created again by the next prediction
+        """
+        state = dict(super().__getstate__())
+        if 'problem_' in state:
+            state['problem_'] = None
+        return state
 
 
 class WithoutClassifiers(BaseQuantifier):
-- 
2.43.0


From 7e1c3df9ead18eca80a89c29d3343d1ef5761ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 22/32] fix: CV_estimator predicts over the training examples
 with the partitions used to train

The splitter was asked again for its partitions, without the groups: splitters
that shuffle with a RandomState, iterables of partitions and splitters based on
groups gave other partitions or failed. cv is not overwritten, so the estimator
can be fitted again with other data.
---
 quantificationlib/estimators/cross_validation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index c089f9c..dcf5f5c 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -150,10 +150,12 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.classes_ = np.unique(y)
         self.le_ = LabelEncoder().fit(y)
         # check cv
-        self.cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        # the partitions are kept: predict over the training examples needs exactly those used to train the estimators
+        self.splits_ = list(cv.split(X, y, self.groups))
         # train CV and save the estimators for each fold
         cvresults = cross_validate(self.estimator, X, y,
-                                   groups=self.groups, cv=self.cv, n_jobs=self.n_jobs,
+                                   groups=self.groups, cv=self.splits_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
                                    return_estimator=True)
         self.estimators_ = cvresults['estimator']
@@ -265,14 +267,14 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
-            for (train_index, test_index) in self.cv.split(self.X_train_, self.y_train_):
+            for (train_index, test_index) in self.splits_:
                 n_preds = n_preds + len(test_index)
             n_repeats = n_preds // n_examples
             #  storing predictions
             preds = np.zeros((n_repeats, n_examples, len(self.classes_)), dtype=float)
             n_rep = 0
             n_preds = 0
-            for nfold, (train_index, test_index) in enumerate(self.cv.split(self.X_train_, self.y_train_)):
+            for nfold, (train_index, test_index) in enumerate(self.splits_):
                 X_test = X[test_index]
                 preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
-- 
2.43.0


From 40e7c7e542396dc4ebe852c34fc6c62cea2c6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 23/32] fix: CV_estimator raises when the training of one of
 its models fails

cross_validate turned the failure into a warning and returned a model not
trained.
---
 quantificationlib/estimators/cross_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index dcf5f5c..c2a8a8c 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -157,7 +157,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         cvresults = cross_validate(self.estimator, X, y,
                                    groups=self.groups, cv=self.splits_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
-                                   return_estimator=True)
+                                   return_estimator=True, error_score='raise')
         self.estimators_ = cvresults['estimator']
 
         return self
-- 
2.43.0


From 54be1d8bd8599586b19271efd40707efd589a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 24/32] fix: plot functions do not reverse the list of columns
 of the caller

---
 quantificationlib/plot/qlplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/plot/qlplot.py b/quantificationlib/plot/qlplot.py
index 5027a59..cc5a52a 100644
--- a/quantificationlib/plot/qlplot.py
+++ b/quantificationlib/plot/qlplot.py
@@ -18,7 +18,7 @@ def _sort_rows_bycolumns(m, columns=[0], order='ascending'):
     Sort rows of matrix based on the list of columns. 
     By default sort based on the firt column ascending
     """
-    columns.reverse() 
+    columns = columns[::-1]
     sort_order = np.lexsort(tuple(m[:, i] for i in columns))
     if order=='descending':
         sort_order = sort_order[::-1]
-- 
2.43.0


From eff818075aaaff7896336372fac8243631094ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 25/32] fix: load_data raises when an example has no valid
 class label

A label missing or torn was read as NaN and converted to an arbitrary integer.
---
 quantificationlib/data_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/data_utils.py b/quantificationlib/data_utils.py
index b7ea5bc..85aa7c0 100644
--- a/quantificationlib/data_utils.py
+++ b/quantificationlib/data_utils.py
@@ -24,4 +24,6 @@ def load_data(dfile):
 
     X = data[:, :-1]
     y = data[:, -1].astype(int)
+    if not np.array_equal(y, data[:, -1]):
+        raise ValueError('load_data: %s has examples without a valid class label' % dfile)
     return X, y
\ No newline at end of file
-- 
2.43.0


From d6ff1bf7f88961c7761f31238b3af31902e152b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 26/32] fix: quantifiers whose training is interrupted do not
 answer with partial distributions

The training distributions (PAC, DFy, DFX, FriedmanME, ACOrdinal, PDFOrdinaly)
and the ensemble of EoQ were filled in place: after an exception in the middle
of fit, predict returned prevalences computed with a partially filled matrix.
---
 quantificationlib/baselines/ac.py        |  5 +--
 quantificationlib/ensembles/eoq.py       | 26 ++++++++-------
 quantificationlib/multiclass/df.py       | 42 ++++++++++++++----------
 quantificationlib/multiclass/friedman.py |  5 +--
 quantificationlib/ordinal/ac_ordinal.py  |  5 +--
 quantificationlib/ordinal/pdf.py         | 12 ++++---
 6 files changed, 55 insertions(+), 40 deletions(-)

diff --git a/quantificationlib/baselines/ac.py b/quantificationlib/baselines/ac.py
index 6d7b9fb..01ef535 100644
--- a/quantificationlib/baselines/ac.py
+++ b/quantificationlib/baselines/ac.py
@@ -413,9 +413,10 @@ class PAC(UsingClassifiers):
         n_classes = len(self.classes_)
         # estimating the confusion matrix
         # average probabilty distribution for each class
-        self.cm_ = np.zeros((n_classes, n_classes))
+        cm = np.zeros((n_classes, n_classes))
         for n_cls, cls in enumerate(self.classes_):
-            self.cm_[n_cls] = np.mean(self.predictions_train_[self.y_ext_ == cls], axis=0)
+            cm[n_cls] = np.mean(self.predictions_train_[self.y_ext_ == cls], axis=0)
+        self.cm_ = cm
 
         if len(self.classes_) > 2 and self.distance == 'L2':
             self.G_, self.C_, self.b_ = compute_l2_param_train(self.cm_.T, self.classes_)
diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 89ae4aa..e2eb5c1 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -248,10 +248,10 @@ class EoQ(WithoutClassifiers):
                 self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=None, classes=self.classes_,
                                                         n_bins=self.n_bins, bin_strategy='equal_width')
 
-            self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
+            quantifiers = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
-                self.quantifiers_[i] = deepcopy(self.base_quantifier)
-                self.quantifiers_[i].fit(X[self.indexes_[:, i], :], y[self.indexes_[:, i]])
+                quantifiers[i] = deepcopy(self.base_quantifier)
+                quantifiers[i].fit(X[self.indexes_[:, i], :], y[self.indexes_[:, i]])
 
             #  compute distributions for distribution_similarity combination strategy
             self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * X.shape[1]))
@@ -263,6 +263,8 @@ class EoQ(WithoutClassifiers):
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
                             np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
 
+            self.quantifiers_ = quantifiers
+
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
             if predictions_train is None:
@@ -344,19 +346,19 @@ class EoQ(WithoutClassifiers):
             if self.verbose > 0:
                 print('Class %s: Training quantifiers...' % self.__class__.__name__, end='')
 
-            self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
+            quantifiers = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
-                self.quantifiers_[i] = deepcopy(self.base_quantifier)
+                quantifiers[i] = deepcopy(self.base_quantifier)
                 if predictions_train.ndim == 1:
-                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
-                                             predictions_train=predictions_train[indexes_ext[:, i]])
+                    quantifiers[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
+                                       predictions_train=predictions_train[indexes_ext[:, i]])
                 elif predictions_train.ndim == 2:
-                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
-                                             predictions_train=predictions_train[indexes_ext[:, i], :])
+                    quantifiers[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
+                                       predictions_train=predictions_train[indexes_ext[:, i], :])
                 else:
                     #  3 dimensions, an EnsembleOfClassifiers is used
-                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
-                                             predictions_train=predictions_train[indexes_ext[:, i], i, :])
+                    quantifiers[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
+                                       predictions_train=predictions_train[indexes_ext[:, i], i, :])
 
             #  compute distributions for distribution_similarity combination strategy
             if n_classes == 2:
@@ -392,6 +394,8 @@ class EoQ(WithoutClassifiers):
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
                             np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
 
+            self.quantifiers_ = quantifiers
+
         else:
             raise ValueError("Base quantifiers of class %s not implemented in EoQ"
                              % self.base_quantifier.__class__.__name__)
diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 7341aa5..86c668e 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -247,23 +247,26 @@ class DFy(UsingClassifiers):
             n_descriptors = n_classes
 
         # compute bincuts according to bin_strategy
-        self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
+        bincuts = np.zeros((n_descriptors, self.n_bins + 1))
         for descr in range(n_descriptors):
-            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=y, classes=self.classes_,
-                                                      n_bins=self.n_bins, bin_strategy=self.bin_strategy,
-                                                      att_range=[0, 1])
+            bincuts[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=y, classes=self.classes_,
+                                                n_bins=self.n_bins, bin_strategy=self.bin_strategy,
+                                                att_range=[0, 1])
 
         # compute pdf
-        self.train_distrib_ = np.zeros((self.n_bins * n_descriptors, n_classes))
+        train_distrib = np.zeros((self.n_bins * n_descriptors, n_classes))
         for n_cls, cls in enumerate(self.classes_):
             for descr in range(n_descriptors):
-                self.train_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, n_cls] = \
-                   np.histogram(self.predictions_train_[self.y_ext_ == cls, descr], bins=self.bincuts_[descr, :])[0]
-            self.train_distrib_[:, n_cls] = self.train_distrib_[:, n_cls] / (np.sum(self.y_ext_ == cls))
+                train_distrib[descr * self.n_bins:(descr + 1) * self.n_bins, n_cls] = \
+                   np.histogram(self.predictions_train_[self.y_ext_ == cls, descr], bins=bincuts[descr, :])[0]
+            train_distrib[:, n_cls] = train_distrib[:, n_cls] / (np.sum(self.y_ext_ == cls))
 
         # compute cdf if necessary
         if self.distribution_function == 'CDF':
-            self.train_distrib_ = np.cumsum(self.train_distrib_, axis=0)
+            train_distrib = np.cumsum(train_distrib, axis=0)
+
+        self.bincuts_ = bincuts
+        self.train_distrib_ = train_distrib
 
         if self.distance == 'L2':
             self.G_, self.C_, self.b_ = compute_l2_param_train(self.train_distrib_, self.classes_)
@@ -535,24 +538,27 @@ class DFX(WithoutClassifiers):
         n_classes = len(self.classes_)
 
         # compute bincuts according to bin_strategy
-        self.bincuts_ = np.zeros((X.shape[1], self.n_bins + 1))
+        bincuts = np.zeros((X.shape[1], self.n_bins + 1))
         for att in range(X.shape[1]):
-            self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=y, classes=self.classes_,
-                                                    n_bins=self.n_bins, bin_strategy=self.bin_strategy)
+            bincuts[att, :] = compute_bincuts(x=X[:, att], y=y, classes=self.classes_,
+                                              n_bins=self.n_bins, bin_strategy=self.bin_strategy)
 
         # compute pdf
-        self.train_distrib_ = np.zeros((self.n_bins * X.shape[1], n_classes))
+        train_distrib = np.zeros((self.n_bins * X.shape[1], n_classes))
         for n_cls, cls in enumerate(self.classes_):
             # compute pdf
             for att in range(X.shape[1]):
-                self.train_distrib_[att * self.n_bins:(att + 1) * self.n_bins, n_cls] = \
-                                                          np.histogram(X[y == cls, att], bins=self.bincuts_[att, :])[0]
-            self.train_distrib_[:, n_cls] = self.train_distrib_[:, n_cls] / np.sum(y == cls)
+                train_distrib[att * self.n_bins:(att + 1) * self.n_bins, n_cls] = \
+                                                          np.histogram(X[y == cls, att], bins=bincuts[att, :])[0]
+            train_distrib[:, n_cls] = train_distrib[:, n_cls] / np.sum(y == cls)
             # compute cdf if necessary
             if self.distribution_function == 'CDF':
                 for att in range(X.shape[1]):
-                    self.train_distrib_[att * self.n_bins:(att + 1) * self.n_bins, n_cls] = \
-                        np.cumsum(self.train_distrib_[att * self.n_bins:(att + 1) * self.n_bins, n_cls], axis=0)
+                    train_distrib[att * self.n_bins:(att + 1) * self.n_bins, n_cls] = \
+                        np.cumsum(train_distrib[att * self.n_bins:(att + 1) * self.n_bins, n_cls], axis=0)
+
+        self.bincuts_ = bincuts
+        self.train_distrib_ = train_distrib
 
         if self.distance == 'L2':
             self.G_, self.C_, self.b_ = compute_l2_param_train(self.train_distrib_, self.classes_)
diff --git a/quantificationlib/multiclass/friedman.py b/quantificationlib/multiclass/friedman.py
index b9f300e..635a479 100644
--- a/quantificationlib/multiclass/friedman.py
+++ b/quantificationlib/multiclass/friedman.py
@@ -188,9 +188,10 @@ class FriedmanME(UsingClassifiers):
         for n_cls in range(n_classes):
             Vp[:, n_cls] = np.array(self.predictions_train_[:, n_cls] >= self.train_prevs_[n_cls]).astype(int)
 
-        self.train_distrib_ = np.zeros((n_classes, n_classes))
+        train_distrib = np.zeros((n_classes, n_classes))
         for n_cls, cls in enumerate(self.classes_):
-            self.train_distrib_[:, n_cls] = Vp[self.y_ext_ == cls].mean(axis=0)
+            train_distrib[:, n_cls] = Vp[self.y_ext_ == cls].mean(axis=0)
+        self.train_distrib_ = train_distrib
 
         if self.distance == 'L2':
             self.G_, self.C_, self.b_ = compute_l2_param_train(self.train_distrib_, self.classes_)
diff --git a/quantificationlib/ordinal/ac_ordinal.py b/quantificationlib/ordinal/ac_ordinal.py
index 694e918..4c0f0c1 100644
--- a/quantificationlib/ordinal/ac_ordinal.py
+++ b/quantificationlib/ordinal/ac_ordinal.py
@@ -153,10 +153,11 @@ class ACOrdinal(UsingClassifiers):
         #  normalizing cm by row
         self.cm_ = cm.astype('float') / cm.sum(axis=1)[:, np.newaxis]
 
-        self.train_distrib_ = np.array(self.cm_.T, copy=True)
+        train_distrib = np.array(self.cm_.T, copy=True)
         n_classes = len(self.classes_)
         for i in range(1, n_classes):
-            self.train_distrib_[i, :] = np.sum(self.train_distrib_[i - 1:i + 1, :], axis=0)
+            train_distrib[i, :] = np.sum(train_distrib[i - 1:i + 1, :], axis=0)
+        self.train_distrib_ = train_distrib
 
         if self.verbose > 0:
             print('done')
diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 2b84060..aed7a2b 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -190,18 +190,20 @@ class PDFOrdinaly(UsingClassifiers):
             raise ValueError('Method %s not implemented with objects of class %s', self.method, self.__class__.__name__)
 
         effective_n_bins = self.n_bins * (n_classes - 1)
-        self.train_distrib_ = np.zeros((effective_n_bins, n_classes))
+        train_distrib = np.zeros((effective_n_bins, n_classes))
         for n_cls, cls in enumerate(self.classes_):
-            self.train_distrib_[:, n_cls] = \
+            train_distrib[:, n_cls] = \
                    np.histogram(scores[self.y_ext_ == cls], bins=effective_n_bins, range=(1., float(n_classes)))[0]
             # compute pdf
-            self.train_distrib_[:, n_cls] = self.train_distrib_[:, n_cls] / (np.sum(self.y_ext_ == cls))
+            train_distrib[:, n_cls] = train_distrib[:, n_cls] / (np.sum(self.y_ext_ == cls))
 
         if self.distance == 'L2':
-            self.G_, self.C_, self.b_ = compute_l2_param_train(self.train_distrib_, self.classes_)
+            self.G_, self.C_, self.b_ = compute_l2_param_train(train_distrib, self.classes_)
         elif self.distance == 'EMD':
             for i in range(1, effective_n_bins):
-                self.train_distrib_[i, :] = np.sum(self.train_distrib_[i-1:i+1, :], axis=0)
+                train_distrib[i, :] = np.sum(train_distrib[i-1:i+1, :], axis=0)
+
+        self.train_distrib_ = train_distrib
 
         if self.verbose > 0:
             print('done')
-- 
2.43.0


From 24f772b6cbca26ea0c0f25f148f7430fe4900669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 27/32] fix: CV_estimator aligns the probabilities of folds
 whose training examples lack a class

---
 .../estimators/cross_validation.py            | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index c2a8a8c..7a73dbc 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -276,7 +276,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             n_preds = 0
             for nfold, (train_index, test_index) in enumerate(self.splits_):
                 X_test = X[test_index]
-                preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
+                preds[n_rep, test_index, :] = self._all_classes_proba(self.estimators_[nfold], X_test)
                 n_preds = n_preds + len(test_index)
                 if n_preds == n_examples:
                     n_rep += 1
@@ -285,6 +285,30 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             #   it is a test sample, predicting with each estimator
             preds = np.zeros((len(self.estimators_), n_examples, len(self.classes_)), dtype=float)
             for n_est, est in enumerate(self.estimators_):
-                preds[n_est, :, :] = est.predict_proba(X)
+                preds[n_est, :, :] = self._all_classes_proba(est, X)
 
         return preds
+
+    def _all_classes_proba(self, estimator, X):
+        """ Probabilities given by the estimator of a fold, one column per class of the training set. The training examples
+            of a fold may lack some classes: their probability is 0
+
+            Parameters
+            ----------
+            estimator : estimator object
+                The estimator of one of the folds
+
+            X : (sparse) array-like, shape (n_examples, n_features)
+                Data
+
+            Returns
+            -------
+            preds : array-like, shape (n_examples, n_classes)
+                The probability of each example for each class in self.classes_
+        """
+        preds = estimator.predict_proba(X)
+        if preds.shape[1] == len(self.classes_):
+            return preds
+        all_preds = np.zeros((len(preds), len(self.classes_)), dtype=preds.dtype)
+        all_preds[:, np.searchsorted(self.classes_, estimator.classes_)] = preds
+        return all_preds
-- 
2.43.0


From cb14be03ca474417e2e9d8ae62327b0f772bff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 28/32] fix: search-based distances raise instead of returning
 two prevalences for several classes

---
 quantificationlib/multiclass/df.py       | 4 ++++
 quantificationlib/multiclass/friedman.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 86c668e..25e1dbe 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -348,6 +348,8 @@ class DFy(UsingClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes != 2:
+                raise ValueError('distance functions can only be used for binary quantification')
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
@@ -618,6 +620,8 @@ class DFX(WithoutClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes != 2:
+                raise ValueError('distance functions can only be used for binary quantification')
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
diff --git a/quantificationlib/multiclass/friedman.py b/quantificationlib/multiclass/friedman.py
index 635a479..3d3aeb1 100644
--- a/quantificationlib/multiclass/friedman.py
+++ b/quantificationlib/multiclass/friedman.py
@@ -261,6 +261,8 @@ class FriedmanME(UsingClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes != 2:
+                raise ValueError('distance functions can only be used for binary quantification')
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
-- 
2.43.0


From a90e9ffe6261bfb8b26e75f382c93e6ade02aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 29/32] fix: ED-based quantifiers raise when the solver does
 not return feasible prevalences

---
 quantificationlib/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 6946738..251e5bd 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -423,6 +423,9 @@ def solve_ed(G, a, C, b):
     """
     sol = quadprog.solve_qp(G=G, a=a, C=C, b=b)
     prevalences = sol[0]
+    # the problem is singular when the distributions of several classes are identical
+    if not (np.all(prevalences > -1e-6) and prevalences.sum() < 1 + 1e-6):
+        raise ValueError('The solver has not found a solution')
     # the last class was removed from the problem, its prevalence is 1 - the sum of prevalences for the other classes
     return np.append(prevalences, 1 - prevalences.sum())
 
-- 
2.43.0


From 62d3ac3d1a74994cc43e14abcde809f6ceb1d68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 30/32] fix: L2-based quantifiers raise when the solver does
 not return feasible prevalences

---
 quantificationlib/optimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 251e5bd..b6c5d38 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -212,8 +212,12 @@ def solve_l2(train_distrib, test_distrib, G, C, b):
     """
     a = 2 * train_distrib.T.dot(test_distrib)
     a = np.squeeze(a)
-    prevalences = quadprog.solve_qp(G=G, a=a, C=C, b=b, meq=1)
-    return prevalences[0]
+    sol = quadprog.solve_qp(G=G, a=a, C=C, b=b, meq=1)
+    prevalences = sol[0]
+    # the problem is singular when the distributions of several classes are identical
+    if not (np.all(prevalences > -1e-6) and abs(prevalences.sum() - 1) < 1e-5):
+        raise ValueError('The solver has not found a solution')
+    return prevalences
 
 
 def compute_l2_param_train(train_distrib, classes):
-- 
2.43.0


From 8a16c19131601529741f532404fa4ed7b5379c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 31/32] fix: generators saved with joblib keep their bags when
 the seed is a RandomState

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 896b769..0ff7a45 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -49,7 +49,7 @@ class BagGenerator(metaclass=ABCMeta):
                 The data on which the bags depend
         """
         params = [value for name, value in sorted(vars(self).items()) if name[-1] != '_' and name != 'verbose']
-        request = [np.array(value) for value in params + list(data)]
+        request = [value if isinstance(value, np.random.RandomState) else np.array(value) for value in params + list(data)]
 
         stored = self.bags_
         if stored is None or not all(np.array_equal(new, old) for new, old in zip(request, stored[0])):
-- 
2.43.0


From bdb678deace7e26ede789b2300c9c7cf6e15e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 32/32] fix: nearest_pd ends also when the norm of the matrix
 underflows

---
 quantificationlib/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index b6c5d38..8c4aefb 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -303,7 +303,8 @@ def nearest_pd(A):
     if is_pd(A3):
         return A3
 
-    spacing = np.spacing(np.linalg.norm(A))
+    # the norm of a matrix with tiny values can underflow
+    spacing = np.spacing(max(np.linalg.norm(A), np.max(np.abs(A))))
     # The above is different from [1]. It appears that MATLAB's `chol` Cholesky
     # decomposition will accept matrixes with exactly 0-eigenvalue, whereas
     # Numpy's will not. So where [1] uses `eps(mineig)` (where `eps` is Matlab
-- 
2.43.0

