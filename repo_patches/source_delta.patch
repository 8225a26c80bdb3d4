From 380572724b173d213ff29fdfb8c49f479385775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 01/38] fix: asin/acos/atan of 0 raised ValueError

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0f8311c..b009944 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1976,7 +1976,7 @@ class asin(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in sin.special_values}
+        return {"0": Rat(0)}
 
 
 class acos(TrigFunction):
@@ -1989,7 +1989,7 @@ class acos(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in cos.special_values}
+        return {"0": pi / 2}
 
 
 class atan(TrigFunction):
@@ -2002,7 +2002,7 @@ class atan(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in tan.special_values}
+        return {"0": Rat(0)}
 
 
 class Abs(SingleFunc):
-- 
2.43.0


From c8b1eecb605c701d3964e70b3164a012c74e798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 02/38] fix: repr of a logarithm with an integer base raised
 NotImplementedError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b009944..0bf93e3 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1556,7 +1556,7 @@ class log(Expr):
         if self.base == e:
             return "ln"
         elif isinstance(self.base, Rat) and self.base.is_int:
-            return "log" + self.base
+            return f"log{self.base}"
         else:
             return f"log[base={self.base}]"
 
-- 
2.43.0


From 311da3b49c0647722d3e04e8ee42d60022bf43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 03/38] fix: derivative, numeric value and expansion of a
 logarithm ignored its base

---
 src/simpy/expr.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0bf93e3..8fa82ee 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1570,8 +1570,10 @@ class log(Expr):
         return log(inner, base)
 
     def _expand(self) -> Expr:
-        assert self.inner.expandable(), f"Cannot expand {self}"
-        return self.__class__(self.inner.expand())
+        assert self.expandable(), f"Cannot expand {self}"
+        inner = self.inner.expand() if self.inner.expandable() else self.inner
+        base = self.base.expand() if self.base.expandable() else self.base
+        return log(inner, base)
 
     def children(self) -> List[Expr]:
         return [self.inner, self.base]
@@ -1610,12 +1612,18 @@ class log(Expr):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-        return self.inner.diff(var) / self.inner
+        if self.base == e:
+            return self.inner.diff(var) / self.inner
+        if not self.base.contains(var):
+            return self.inner.diff(var) / self.inner / log(self.base)
+        return (log(self.inner) / log(self.base)).diff(var)
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
         base = self.base._evalf(subs)
-        return Const(math.log(inner.value)) if isinstance(inner, Num) and isinstance(base, Num) else log(inner, base)
+        if isinstance(inner, Num) and isinstance(base, Num):
+            return Const(math.log(inner.value) / math.log(base.value))
+        return log(inner, base)
 
 
 @cast
-- 
2.43.0


From 8b36c142da06b2503dc6237fb541395c9108ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 04/38] fix: evalf of an expression with a symbol raised
 TypeError

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8fa82ee..457c9b1 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -794,7 +794,8 @@ class Symbol(Expr):
         return subs.get(self.name, self)
 
     def _evalf(self, subs):
-        return super()._evalf()
+        value = super()._evalf(subs)
+        return value if isinstance(value, Symbol) else value._evalf({})
 
     def diff(self, var) -> Rat:
         return Rat(1) if self == var else Rat(0)
-- 
2.43.0


From 6d7003e75a066d8071aca8217411ae4f4a09b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/38] fix: (b^n)^r with even n and positive fractional r lost
 the absolute value of b

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 457c9b1..9ed728d 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1335,11 +1335,11 @@ def _multiply_exponents(b: Expr, x1: Expr, x2: Expr) -> Expr:
     exponent inside a radical to another even exponent cancels out the radical
     and results in the absolute value of the base.
     """
-    # TODO: this is not exhausitve, like when x1 and x2 aren't exactly reciprocals.
+    # TODO: this is not exhausitve, like when x2 is negative.
     # but i'm fine with this for now.
     if isinstance(x1, Rat) and x1 % 2 == 0:
-        if isinstance(x2, Rat) and x1 == x2.reciprocal():
-            return Abs(b)
+        if isinstance(x2, Rat) and x2 > 0 and (x1 * x2) % 2 != 0:
+            return Abs(b) ** (x1 * x2)
 
     return b ** (x1 * x2)
 
-- 
2.43.0


From f299a424e3c5d5a4030684990b0ce7a8d51e6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 06/38] fix: Abs of a Float operand crashed because Float never
 sets _strictly_positive

---
 src/simpy/expr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 9ed728d..0dc4bae 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -112,6 +112,7 @@ class Expr(ABC):
     _nesting_cache: Dict[str, int] = None
     _expandable_cache = None
     _expand_cache = None
+    _strictly_positive = False
 
     def __post_init__(self):
         # if any field is an Expr, cast it
-- 
2.43.0


From a4e346b9113223b652d1efbde3119840f3174af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 07/38] fix: powers of rationals were decided in floating point
 (wrong or overflowing for large numbers)

---
 src/simpy/expr.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0dc4bae..0c10e6a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -575,7 +575,7 @@ class Rat(Num, Expr):
 
     @cast
     def __pow__(self, other) -> Expr:
-        if isinstance(other, Rat):
+        if isinstance(other, Rat) and other.value.denominator == 1:
             value = self.value**other.value
             if isinstance(value, Fraction):
                 return Rat(value)
@@ -730,6 +730,24 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
         return Const(operation(c.value for c in consts))
 
 
+def _int_power(n: int, x: Fraction) -> Optional[int]:
+    """n**x for x >= 0 if that is an integer (decided exactly), otherwise None."""
+    k = x.denominator
+    if k == 1:
+        return n**x.numerator
+    if n < 0:
+        return None
+    # binary search for the k-th root of n
+    lo, hi = 0, 1 << (n.bit_length() // k + 1)
+    while lo < hi:
+        mid = (lo + hi) // 2
+        if mid**k < n:
+            lo = mid + 1
+        else:
+            hi = mid
+    return lo**x.numerator if lo**k == n else None
+
+
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
@@ -744,14 +762,13 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-        num = b.value.numerator ** abs(x.value)
-        den = b.value.denominator ** abs(x.value)
-        isint = lambda x: int(x.real) == x
-        if isint(num) and isint(den):
+        num = _int_power(b.value.numerator, abs(x.value))
+        den = _int_power(b.value.denominator, abs(x.value))
+        if num is not None and den is not None:
             if x > 0:
-                return Rat(int(num), int(den))
+                return Rat(num, den)
             else:
-                return Rat(int(den), int(num))
+                return Rat(den, num)
 
         # Rewriting for consistency between same values.
         if b.value.numerator == 1:
@@ -766,9 +783,9 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
             return -1 * Power(-b, x)
 
         ans = None
-        if isint(num) and num != 1:
+        if num is not None and num != 1:
             ans = Prod([Rat(num), Power(b.denominator, -x, skip_checks=True)], skip_checks=True)
-        elif isint(den) and den != 1:
+        elif den is not None and den != 1:
             ans = Prod([Rat(1, den), Power(b.numerator, x, skip_checks=True)], skip_checks=True)
         if ans:
             if x > 0:
-- 
2.43.0


From 624b2777893a6eb6cec0d14b9a2846c70c088514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 08/38] fix: log(...) and Abs(...) overwrote the fields of an
 already existing expression

---
 src/simpy/expr.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0c10e6a..aa97b8a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1609,7 +1609,7 @@ class log(Expr):
     @cast
     def __new__(cls, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
         if skip_checks:
-            super().__new__(cls)
+            return super().__new__(cls)
 
         if inner == 1:
             return Rat(0)
@@ -1623,11 +1623,16 @@ class log(Expr):
             if isinstance(base, Float):
                 return Float(math.log(inner.value) / math.log(base.value))
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        instance.base = base
+        return instance
 
     def __init__(self, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
-        self.inner = inner
-        self.base = base
+        # inner and base are already set in __new__
+        if skip_checks:
+            self.inner = inner
+            self.base = base
         self.__post_init__()
 
     def diff(self, var) -> Expr:
@@ -2061,7 +2066,13 @@ class Abs(SingleFunc):
         if _is_strictly_positive(inner):
             return inner
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        return instance
+
+    def __init__(self, inner: Expr):
+        # inner is already set in __new__
+        self.__post_init__()
 
     def diff(self, var) -> Expr:
         warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-- 
2.43.0


From f8b3a9f70ce9f689cc01e3faabf1a126770eea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 09/38] fix: re-running __post_init__ on an existing expression
 threw away its state

---
 src/simpy/expr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index aa97b8a..24b8f0b 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -112,6 +112,7 @@ class Expr(ABC):
     _nesting_cache: Dict[str, int] = None
     _expandable_cache = None
     _expand_cache = None
+    # Experimental & not guaranteed to be robust so it's private API for now.
     _strictly_positive = False
 
     def __post_init__(self):
@@ -121,10 +122,8 @@ class Expr(ABC):
                 if field.type is Expr:
                     setattr(self, field.name, _cast(getattr(self, field.name)))
 
-        self._nesting_cache = {}
-
-        # Experimental & not guaranteed to be robust so it's private API for now.
-        self._strictly_positive = False
+        if self._nesting_cache is None:
+            self._nesting_cache = {}
 
     def simplify(self) -> "Expr":
         from .simplify import simplify
-- 
2.43.0


From 2efcf4c14acd96036ba6c5ba084a1c73e3d19d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 10/38] fix: derivative of Abs had the wrong sign for a
 negative operand

---
 src/simpy/expr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 24b8f0b..e6d224e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -15,7 +15,6 @@ so I don't really mind the lack of float support, but I can see why you'd be ann
 import inspect
 import itertools
 import math
-import warnings
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, fields
 from fractions import Fraction
@@ -2074,8 +2073,7 @@ class Abs(SingleFunc):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-        warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-        return self.inner.diff(var)
+        return self.inner.diff(var) * self / self.inner
 
     def _evalf(self, subs: Dict[str, Expr]) -> Expr:
         return Abs(self.inner._evalf(subs))
-- 
2.43.0


From daef87afd010741b9c624461d1e16488cdfefebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 11/38] fix: printing a product with a negative factor and a
 power of -1 raised ValueError

---
 src/simpy/expr.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e6d224e..f592fab 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1206,13 +1206,10 @@ class Prod(Associative, Expr):
 
         # special case for subtraction:
         if self.is_subtraction:
-            new_prod = self * -1
+            first = -self.terms[0]
+            new_prod = Prod(([] if first == 1 else [first]) + self.terms[1:], skip_checks=True)
             if not isinstance(new_prod, Prod):
                 return f"-{_term_repr(new_prod)}"
-            if new_prod.is_subtraction:
-                from .debug.utils import debug_repr
-
-                raise ValueError(f"Cannot get repr of {debug_repr(self)}")
             return "-" + new_prod.__repr__()
 
         numerator, denominator = self.numerator_denominator
-- 
2.43.0


From 99335ab228b71c8c364cee002e21bcd8220aabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 12/38] fix: expand_logs dropped the base of a logarithm

---
 src/simpy/simplify/simplify.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2960f29..a85b49e 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -32,30 +32,30 @@ def expand_logs(expr: Expr, **kwargs) -> Expr:
 def _log_perform(expr: Expr) -> Optional[Expr]:
     if not isinstance(expr, log):
         return
-    inner = expr.inner
+    inner, base = expr.inner, expr.base
     # IDK if this should be in simplify or if it should be like expand, in a diff function
     # like you can move stuff together or move stuff apart
     if isinstance(inner, Power):
-        return log(inner.base) * inner.exponent
+        return log(inner.base, base) * inner.exponent
     if isinstance(inner, Prod):
-        return Sum([log(t) for t in inner.terms])
+        return Sum([log(t, base) for t in inner.terms])
     if isinstance(inner, Sum) and isinstance(inner.factor(), Prod):
-        return Sum([log(t) for t in inner.factor().terms])
+        return Sum([log(t, base) for t in inner.factor().terms])
 
     # let's agree on some standards
     # i dont love this, can change
     if isinstance(inner, (sec, csc, cot)):
-        return -1 * log(inner.reciprocal_class(inner.inner))
+        return -1 * log(inner.reciprocal_class(inner.inner), base)
 
     # ugly patch lmfao. need better overall philosophy for this stuff.
     if isinstance(inner, Abs) and isinstance(inner.inner, Power):
-        return log(abs(inner.inner.base)) * inner.inner.exponent
+        return log(abs(inner.inner.base), base) * inner.inner.exponent
     if isinstance(inner, Abs) and isinstance(inner.inner, Prod):
-        return Sum([log(abs(term)) for term in inner.inner.terms])
+        return Sum([log(abs(term), base) for term in inner.inner.terms])
     if isinstance(inner, Abs) and isinstance(inner.inner, Sum) and isinstance(inner.inner.factor(), Prod):
-        return Sum([log(abs(term)) for term in inner.inner.factor().terms])
+        return Sum([log(abs(term), base) for term in inner.inner.factor().terms])
 
-    return log(inner)
+    return log(inner, base)
 
 
 def pythagorean_simplification(expr: Expr, **kwargs) -> Expr:
-- 
2.43.0


From 0c9a78f3275e79b0fa34292281f66c434e08b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 13/38] fix: sectan compared a term count with a list
 (TypeError)

---
 src/simpy/simplify/simplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index a85b49e..2ec819b 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -351,7 +351,7 @@ def sectan(sum: Expr) -> Optional[Expr]:
         # This must mean that we simplified the sum into one term
         return new_sum
 
-    if len(new_sum.terms) < sum.terms:
+    if len(new_sum.terms) < len(sum.terms):
         return new_sum
 
 
-- 
2.43.0


From 578b24e8821983ab58978855a26c68dd86c44f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 14/38] fix: diff returned a ValueError object instead of
 raising it

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index f592fab..6952d7f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2105,7 +2105,7 @@ def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
     if var is None:
         symbols = expr.symbols()
         if len(symbols) != 1:
-            return ValueError(f"Must provide variable of differentiation for {var}")
+            raise ValueError(f"Must provide variable of differentiation for {expr}")
         var = symbols[0]
 
     return expr.diff(var)
-- 
2.43.0


From 5a17270504e6bf6543ea06d74ea325ed4a2faf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 15/38] fix: sin^2+cos^2 simplification mixed up the factors of
 products holding both squares

---
 src/simpy/simplify/simplify.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2ec819b..8636a6b 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -101,13 +101,17 @@ def _pythagorean_perform(sum: Expr) -> Optional[Expr]:
         # with an optional factor that may or may not be there of a
         s = [is_thing_squared(term, sin) for term in expr.terms]
         c = [is_thing_squared(term, cos) for term in expr.terms]
-        return [el for el in s if el is not None and el in c]
-
-    both_inners = sin_cos_condition(sum)
-    if len(both_inners) > 0:
-        new_terms = [t for t in sum.terms if not is_thing_squared(t, (sin, cos)) in both_inners]
-        new_terms += [el[1] for el in both_inners]
-        return Sum(new_terms)
+        return [(i, c.index(el), el[1]) for i, el in enumerate(s) if el is not None and el in c]
+
+    pairs = sin_cos_condition(sum)
+    if len(pairs) > 0:
+        used, factors = set(), []
+        for i, j, factor in pairs:
+            # a term that holds both squares can belong to two pairs, but can only be used once
+            if i != j and i not in used and j not in used:
+                used.update((i, j))
+                factors.append(factor)
+        return Sum([t for k, t in enumerate(sum.terms) if k not in used] + factors)
 
     ##------------ Simplify 1 +/- cls(...)^2 ------------##
     # - for this case: what if there is a constant (or variable) common factor?
-- 
2.43.0


From 4e79d659437b127300797cb7694af42e1b885fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 16/38] fix: evalf of csc, sec and cot raised TypeError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 6952d7f..77e6c7c 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1829,7 +1829,7 @@ class TrigFunction(SingleFunc, ABC):
     def _evalf(self, subs):
         inner = self.inner._evalf(subs)
         if isinstance(inner, Num):
-            return Float(self._func(inner.value))
+            return Float(self.__class__._func(inner.value))
         return self.__class__(inner)
 
     def latex(self) -> str:
-- 
2.43.0


From 33a71f98450717c5812d5576f4064f96c7b23622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 17/38] fix: factor() of a sum with decimal coefficients raised
 AttributeError

---
 src/simpy/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 77e6c7c..c3eb8ce 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1017,6 +1017,9 @@ class Sum(Associative, Expr):
         for c in coeffs[1:]:
             x: Rat = c / common_coeff
             y: Rat = common_coeff / c
+            if not isinstance(x, Rat) or not isinstance(y, Rat):
+                common_coeff = None
+                break
             if x.value.denominator == 1 or y.value.denominator == 1:
                 common_coeff = min(abs(c), abs(common_coeff))
             else:
-- 
2.43.0


From 40f14e6adc16168a4aac187e0cb1fe47309b13f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 18/38] fix: endless recursion when negating or inverting a
 product with a symbolic power of -1

---
 src/simpy/expr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index c3eb8ce..892327c 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1119,13 +1119,17 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
         is_hit = False
         if term is None:
             continue
+        if term == -1:
+            # a sign, not a power of -1 to merge with another one
+            consts.append(term)
+            continue
         if not i in decon:
             decon[i] = deconstruct_power(term)
         base, expo = decon[i]
 
         # other terms with same base
         for j in range(i + 1, len(initial_terms)):
-            if initial_terms[j] is None:
+            if initial_terms[j] is None or initial_terms[j] == -1:
                 continue
             if not j in decon:
                 decon[j] = deconstruct_power(initial_terms[j])
-- 
2.43.0


From a3699b43eecff836b11d1d2e9e9f1c219ebd5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 19/38] fix: derivative of the constants asin(1), asin(-1),
 acos(1), acos(-1) was NaN

---
 src/simpy/expr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 892327c..002c198 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2006,6 +2006,8 @@ class asin(TrigFunction):
     _func = math.asin
 
     def diff(self, var):
+        if not self.contains(var):
+            return Rat(0)
         return 1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
@@ -2019,6 +2021,8 @@ class acos(TrigFunction):
     _func = math.acos
 
     def diff(self, var):
+        if not self.contains(var):
+            return Rat(0)
         return -1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
-- 
2.43.0


From cbb1d524e06fe9cf86f9cd8b69f5fd4bec4f139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 20/38] fix: product-to-sum dropped the plain sin/cos factors
 of a product that also holds powers

---
 src/simpy/simplify/product_to_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/product_to_sum.py b/src/simpy/simplify/product_to_sum.py
index 26d81e0..5b9e174 100644
--- a/src/simpy/simplify/product_to_sum.py
+++ b/src/simpy/simplify/product_to_sum.py
@@ -73,7 +73,7 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             return
 
         if any(not isinstance(t, (sin, cos)) for t in new_expr.terms):
-            new_terms = [product_to_sum_unit(t) for t in new_expr.terms if not isinstance(t, (sin, cos))]
+            new_terms = [t if isinstance(t, (sin, cos)) else product_to_sum_unit(t) for t in new_expr.terms]
             return _product_to_sum(Prod(new_terms).expand().terms, multiplier=const)
 
         return _perform_on_terms(
-- 
2.43.0


From d7fe4788037452bcb3f6b4a02b09bef09823a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 21/38] fix: simplifying a sum with sec^2 and tan^2 raised
 AssertionError

---
 src/simpy/simplify/simplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 8636a6b..163099f 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -346,7 +346,7 @@ def sectan(sum: Expr) -> Optional[Expr]:
 
     for s in secs:
         new = replace_factory(condition, perform)(s)
-        new = new.expand() if new.expandable() else s
+        new = new.expand() if new.expandable() else new
         assert isinstance(new, Sum)
         tans.extend(new.terms)
 
-- 
2.43.0


From dbf7e14029a4872ad4502ea18761eb28e5cc798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 22/38] fix: completing the square divided by zero on perfect
 squares and bare x^2 terms

---
 src/simpy/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b1347b3..b9c815f 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -990,10 +990,11 @@ class CompleteTheSquare(Transform):
 
             # hmm completing the square could work on non-quadratics in some cases no?
             # but I'll just limit it to quadratics for now
-            return poly.size == 3 and poly[1] != 0
+            return poly.size == 3 and poly[1] != 0 and poly[1] ** 2 != 4 * poly[0] * poly[2]
             # poly[1] = 0 implies that there's no bx term
             # which means that there's no square to complete.
             # the result will just be the same as the original.
+            # a perfect square has nothing left over to divide by.
 
         return general_contains(node.expr, condition)
 
@@ -1004,7 +1005,7 @@ class CompleteTheSquare(Transform):
                 poly = to_const_polynomial(expr, node.var)
             except AssertionError:
                 return False
-            return poly.size == 3
+            return poly.size == 3 and poly[1] != 0 and poly[1] ** 2 != 4 * poly[0] * poly[2]
 
         def perform(expr: Expr) -> Expr:
             poly = to_const_polynomial(expr, node.var)
-- 
2.43.0


From 2b74698e360c221bddb225b516174cdb834b055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 23/38] fix: matching up to a sum let one term of the
 expression answer for two terms of the query

---
 src/simpy/regex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index e7480c0..6924663 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -142,9 +142,12 @@ def consolidate(query_matches: _qmatches, expr: Sum) -> EqResult:
     accounted_expr_terms = []
 
     # We need to make sure every query term has a match.
-    for query_term_repr, query_term_values in query_matches.items():
+    # (Start with the query terms that have the fewest candidates: every expr term can only be used once.)
+    for query_term_values in sorted(query_matches.values(), key=len):
         has_match = False
         for expr_term_repr, matches in query_term_values.items():
+            if expr_term_repr in accounted_expr_terms or not _matches_eq({k: v[0] for k, v in final.items()}, matches):
+                continue
             if all(
                 any(_matches_eq(matches2, matches) for matches2 in query_term_values2.values())
                 for query_term_values2 in query_matches.values()
@@ -213,7 +216,7 @@ class Eq:
                     for expr_term in expr.terms:
                         output = Eq(expr_term, query_term, decompose_singles=False)()
                         is_eq, anyfinds = output.get("success"), output.get("matches")
-                        if is_eq and all(any(_matches_eq(x, anyfinds) for x in y) for y in query_matches.values()):
+                        if is_eq and all(any(_matches_eq(x, anyfinds) for x in y.values()) for y in query_matches.values()):
                             query_matches[repr(query_term)][repr(expr_term)] = anyfinds
 
                     if len(query_matches[repr(query_term)]) == 0:
-- 
2.43.0


From a044e092e48b7e7a13768277b116a970efe529d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 24/38] fix: combining like terms could leave a product inside
 a product (or a sum inside a sum)

---
 src/simpy/expr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 002c198..57d286e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -910,6 +910,9 @@ class Sum(Associative, Expr):
             return Rat(0)
         if len(final_terms) == 1:
             return final_terms[0]
+        if any(isinstance(t, Sum) for t in final_terms):
+            # ex: 3*(x + y) - 2*(x + y) + x
+            return Sum(final_terms)
 
         final_terms = cls._sort_terms(final_terms)
 
@@ -1186,6 +1189,9 @@ class Prod(Associative, Expr):
             return Rat(1)
         if len(new_terms) == 1:
             return new_terms[0]
+        if any(isinstance(t, Prod) for t in new_terms):
+            # ex: sqrt(-x*y) * sqrt(-x*y) * z
+            return Prod(new_terms)
 
         new_terms = cls._sort_terms(new_terms)
 
-- 
2.43.0


From 8efc2a4cec178b249620d82929171d93a71f9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 25/38] fix: Sum/Prod of a single sum/product with skip_checks
 made that object contain itself

---
 src/simpy/expr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 57d286e..0eb6640 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -923,6 +923,9 @@ class Sum(Associative, Expr):
     def __init__(self, terms: List[Expr], *, skip_checks: Union[bool, Literal["sort"]] = False):
         # Overrides the shit that does self.terms = terms because i've already set terms
         # in __new__.
+        if skip_checks and len(terms) == 1:
+            # __new__ returned the term itself, which is a sum already.
+            return
         if skip_checks is True:
             self.terms = terms
         if skip_checks == "sort":
@@ -1206,6 +1209,9 @@ class Prod(Associative, Expr):
         return instance
 
     def __init__(self, terms: List[Expr], *, skip_checks: bool = False):
+        if skip_checks and len(terms) == 1:
+            # __new__ returned the term itself, which is a product already.
+            return
         if skip_checks:
             self.terms = terms
         # terms are already set in __new__
-- 
2.43.0


From beeb231f03645af338a1ed573606ab0c500265ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 26/38] fix: a decimal or rational close to pi or e compared
 equal to the constant

---
 src/simpy/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0eb6640..ae33dee 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -420,6 +420,9 @@ class Num(ABC):
 
     @cast
     def __eq__(self, other):
+        if isinstance(self, (Pi, E)) or isinstance(other, (Pi, E)):
+            # their value is only the nearest float.
+            return type(self) is type(other)
         return isinstance(other, Num) and self.value == other.value
 
     @cast
-- 
2.43.0


From bd168193369cdbd081d9715f391216dd1a9eef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 27/38] fix: the product rule dropped every occurrence of a
 factor that is shared

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index ae33dee..d5f7cfb 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1358,7 +1358,7 @@ class Prod(Associative, Expr):
         return Prod([t.subs(subs) for t in self.terms])
 
     def diff(self, var) -> Sum:
-        return Sum([Prod([diff(e, var)] + [t for t in self.terms if t is not e]) for e in self.terms])
+        return Sum([Prod([diff(e, var)] + self.terms[:i] + self.terms[i + 1 :]) for i, e in enumerate(self.terms)])
 
 
 def _multiply_exponents(b: Expr, x1: Expr, x2: Expr) -> Expr:
-- 
2.43.0


From 038202075a743e8990607b2491190a3d3fd4ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 28/38] fix: a wildcard with a numeric coefficient was matched
 to the coefficient itself

---
 src/simpy/regex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index 6924663..6bd92f6 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -289,6 +289,9 @@ class Eq:
                 if len(anys) == 1:
                     anyvalue = one / anys[0]
                     if get_anys(anyvalue) == []:
+                        if "factor" not in anys[0].key:
+                            # anyvalue * any has to be 1
+                            anyvalue = 1 / anyvalue
                         join_dicts2(self._matches, quotient_matches)
                         self._matches[anys[0].key].append(anyvalue)
                         return True
-- 
2.43.0


From 370faf0358d541efa9779ec079a5db897dd29462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:05 +0000
Subject: [PATCH 29/38] fix: a joint sub-problem with a repeated part is not
 solvable by its other parts

---
 src/simpy/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b9c815f..5b2533a 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -88,6 +88,10 @@ class Node:
     def add_children(self, children: List["Node"]) -> None:
         for c in children:
             self.add_child(c)
+        if self.type == "AND" and len(self.children) < len(children):
+            # A part that repeats an ancestor is never explored, so the parts can't all be solved.
+            self.children.clear()
+            self.type = "FAILURE"
 
     def __repr__(self):
         num_children = len(self.children) if self.children else 0
-- 
2.43.0


From 7a0a27c5da71b127cf22e07b871f54746354aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:50 +0000
Subject: [PATCH 30/38] fix: integration by parts does not undo the last one
 when a constant was pulled out in between

---
 src/simpy/transforms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 5b2533a..0f62e3b 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -742,6 +742,13 @@ class ByParts(Transform):
         old_byparts_integrands = [node.expr for node in byparts_parents]
         if integrand2 in old_byparts_integrands:
             return False
+
+        # same with a constant pulled out in between: it'd just undo the last integration by parts
+        last = ByParts._get_last_byparts_parent(node)
+        if last:
+            factor = integrand2 / last.expr
+            if not factor.contains(node.var) and ByParts._get_first_factor(last, node) * factor == 1:
+                return False
         return True
 
     def __init__(self):
-- 
2.43.0


From 98d4f05b957ea79b417b20bbe3fd6b19ab34179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:08 +0000
Subject: [PATCH 31/38] fix: partial fractions are not attempted on factors
 that are not linear

PartialFractions.check raised (an array of unequal rows, or a matrix that is
not square), so integrate() crashed instead of returning None.
---
 src/simpy/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 0f62e3b..ec7069e 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -925,6 +925,9 @@ class PartialFractions(Transform):
 
         d1_list = to_const_polynomial(d1, node.var)
         d2_list = to_const_polynomial(d2, node.var)
+        if not (len(d1_list) == len(d2_list) == 2):
+            # only linear factors have constant numerators
+            return False
 
         matrix = np.array([d2_list, d1_list]).T
         inv = invert(matrix)
-- 
2.43.0


From 4ce579a50be3feccc50a025549d31797c39a89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 32/38] fix: integration by parts below several pulled-out
 constants does not crash

With more than one constant pulled out since the last integration by parts
(or a sum split), _get_first_factor raised ValueError out of integrate().
---
 src/simpy/transforms.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index ec7069e..cde692f 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -747,7 +747,8 @@ class ByParts(Transform):
         last = ByParts._get_last_byparts_parent(node)
         if last:
             factor = integrand2 / last.expr
-            if not factor.contains(node.var) and ByParts._get_first_factor(last, node) * factor == 1:
+            first_factor = ByParts._get_first_factor(last, node)
+            if first_factor is not None and not factor.contains(node.var) and first_factor * factor == 1:
                 return False
         return True
 
@@ -791,12 +792,16 @@ class ByParts(Transform):
         return _check(a, b) or _check(b, a)
 
     @staticmethod
-    def _get_first_factor(parent_byparts: Node, node: Node) -> Expr:
-        if parent_byparts.children[1] == node:
-            return Rat(1)
-        elif isinstance(node.transform, PullConstant) and parent_byparts.children[1].child == node:
-            return node.transform._constant
-        raise ValueError
+    def _get_first_factor(parent_byparts: Node, node: Node) -> Optional[Expr]:
+        """The product of the constants pulled out since the last integration by parts.
+        None if node is only a part of what was left to integrate then."""
+        factor = Rat(1)
+        while node is not parent_byparts.children[1]:
+            if not isinstance(node.transform, PullConstant):
+                return None
+            factor = factor * node.transform._constant
+            node = node.parent
+        return factor
 
     def forward(self, node: Node) -> None:
         # This is tricky bc you have 2 layers of children here.
@@ -832,8 +837,8 @@ class ByParts(Transform):
             parent_byparts = self._get_last_byparts_parent(node)
             if parent_byparts:
                 second_factor = integrand2 / parent_byparts.expr
-                if not second_factor.contains(node.var):
-                    first_factor = self._get_first_factor(parent_byparts, node)
+                first_factor = self._get_first_factor(parent_byparts, node)
+                if first_factor is not None and not second_factor.contains(node.var):
                     factor = first_factor * second_factor
                     other_uv = parent_byparts.child
                     other_uv.solution /= 1 - factor  # mutating is sus
-- 
2.43.0


From 597523b86fa83cfc831df053c544e44fc271de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:33 +0000
Subject: [PATCH 33/38] fix: coefficients of a multiple of a sum are multiplied
 when reading off a polynomial

Expansion may leave 6*(x + 1) inside a sum (from sqrt(x + 1)**2);
to_const_polynomial dropped the 6.
---
 src/simpy/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/polynomial.py b/src/simpy/polynomial.py
index 2fbea6a..7a4ab2f 100644
--- a/src/simpy/polynomial.py
+++ b/src/simpy/polynomial.py
@@ -32,14 +32,14 @@ def _to_const_polynomial(expr: Expr, var: Symbol, answer: List[Rat] = None, mult
 
     elif isinstance(expr, Sum):
         for term in expr.terms:
-            _to_const_polynomial(term, var, answer)
+            _to_const_polynomial(term, var, answer, multiplier)
 
     elif isinstance(expr, Prod):
         # has to be product of 2 terms: a constant and a power.
         assert len(expr.terms) == 2
         const, other = expr.terms
         assert isinstance(const, Rat)
-        _to_const_polynomial(other, var, answer, multiplier=const)
+        _to_const_polynomial(other, var, answer, multiplier=const * multiplier)
     elif isinstance(expr, Power):
         assert expr.base == var
         assert (
-- 
2.43.0


From 1d9c2db4c9525207c81169751a0ae48437265be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:33 +0000
Subject: [PATCH 34/38] fix: partial fractions are not attempted on factors
 that are not polynomials

---
 src/simpy/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index cde692f..d5d3942 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -928,8 +928,11 @@ class PartialFractions(Transform):
         if not (d1.contains(node.var) and d2.contains(node.var)):
             return False
 
-        d1_list = to_const_polynomial(d1, node.var)
-        d2_list = to_const_polynomial(d2, node.var)
+        try:
+            d1_list = to_const_polynomial(d1, node.var)
+            d2_list = to_const_polynomial(d2, node.var)
+        except AssertionError:
+            return False
         if not (len(d1_list) == len(d2_list) == 2):
             # only linear factors have constant numerators
             return False
-- 
2.43.0


From d8221c83854ff1b2bc1f687cf2253fac90d40e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 35/38] fix: the argument of a function is printed in brackets
 when it is a product of sums

---
 src/simpy/expr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d5f7cfb..2d5cece 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1576,10 +1576,8 @@ class SingleFunc(Expr):
 
 
 def _repr(inner: Expr, label: str) -> str:
-    inner_repr = inner.__repr__()
-    if inner_repr[0] == "(" and inner_repr[-1] == ")":
-        return f"{label}{inner_repr}"
-    return f"{label}({inner_repr})"
+    # A product can start and end with brackets that do not belong together: (x + 1)*(x + 2)
+    return f"{label}({inner.__repr__()})"
 
 
 @dataclass
-- 
2.43.0


From 2b7cd2c8b52f800dbbd84b945cdf9cd3162b28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:51 +0000
Subject: [PATCH 36/38] fix: negative floats are printed in brackets under a
 power

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 2d5cece..b721c9b 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1105,7 +1105,7 @@ def deconstruct_power(expr: Expr) -> Tuple[Expr, Expr]:
     return expr._deconstruct_power_cache
 
 
-isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0)
+isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0) or isinstance(x, Float) and x.value < 0
 islongsymbol = lambda x: isinstance(x, Symbol) and len(x.name) > 1 or x.__class__.__name__ == "Any_" and len(x.key) > 1
 
 
-- 
2.43.0


From 93b7ce11eb2d65eeba65e68a8917897e445ef7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:24 +0000
Subject: [PATCH 37/38] fix: a quotient as an exponent and a power as a base
 are printed in brackets

---
 src/simpy/expr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b721c9b..4a631aa 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1390,6 +1390,9 @@ class Power(Expr):
         def _term_repr(term):
             if isinstance(term, Sum) or isinstance(term, Prod) or isfractionorneg(term) or islongsymbol(term):
                 return "(" + repr(term) + ")"
+            if isinstance(term, Power) and isinstance(term.exponent, (Rat, Float)) and term.exponent < 0:
+                # 1/x^2 is a quotient.
+                return "(" + repr(term) + ")"
             return repr(term)
 
         # represent negative powers as reciprocals
@@ -1403,7 +1406,9 @@ class Power(Expr):
         if self.exponent == Rat(1, 2):
             return _repr(self.base, "sqrt")
 
-        return f"{_term_repr(self.base)}^{_term_repr(self.exponent)}"
+        # x^y^z groups to the right.
+        base = "(" + repr(self.base) + ")" if isinstance(self.base, Power) else _term_repr(self.base)
+        return f"{base}^{_term_repr(self.exponent)}"
 
     def latex(self) -> str:
         from .latex import bracketfy, group
-- 
2.43.0


From 1ef68a4218b9aaa72483bfe061ab2ce0dc1e85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:44 +0000
Subject: [PATCH 38/38] fix: a linear substitution recovers x whichever part of
 the integrand was seen first

cos(2*x)*sin(4*x**2) was substituted by u = 2*x in its first factor only: the second factor needs x written in
terms of u, which was recorded only if it came first. The new integrand then still contained x, and its integral in u
was taken as if x were a constant.
---
 src/simpy/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index d5d3942..10ae87f 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -637,8 +637,8 @@ class LinearUSub(USub):
             result = _is_a_linear_sum_or_prod(e)
             if result is not None:
                 u, u_inverse = result
-                if self._u is not None:
-                    return u == self._u
+                if self._u is not None and u != self._u:
+                    return False
                 self._u = u
 
                 # If u_inverse exists, set it.
-- 
2.43.0

