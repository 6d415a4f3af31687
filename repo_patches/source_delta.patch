From 8ae783b4e2b6294498391e9750983532d16bcf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:06 +0000
Subject: [PATCH 01/31] fix: compare multiplicity in Particles.__eq__

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 2e6bf26..481c34c 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -89,7 +89,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def __eq__(self, other):
         """Checks equality of each particle in particles."""
         if isinstance(other, Particles):
-            return all(self[i] == other[i] for i in range(1, len(self) + 1))
+            return len(self) == len(other) and all(self[i] == other[i] for i in range(1, len(self) + 1))
         else:
             return False
 
-- 
2.43.0


From 7151296b2a6d122072076a145bae78379582d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:06 +0000
Subject: [PATCH 02/31] fix: image and copy must go by position, not by first
 equal momentum; copy works for n >= 10

---
 lips/particles.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 481c34c..0adb02e 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -146,7 +146,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if type(permutation_or_rule) is str:
             if not permutation_or_rule.isdigit():
                 raise ValueError(f"Permutation to map phase space points should be a string of integers, got: {permutation_or_rule}.")
-            oResParticles = copy.deepcopy(Particles(sorted(self, key=lambda x: permutation_or_rule[self.index(x)]),
+            oResParticles = copy.deepcopy(Particles([self[i + 1] for i in sorted(range(len(self)), key=lambda i: permutation_or_rule[i])],
                                                     field=self.field, fix_mom_cons=False, internal_masses=self.internal_masses_dict))
             oResParticles.__dict__ = copy.deepcopy(self.__dict__)
             return oResParticles
@@ -158,8 +158,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             return oResParticles
 
     def copy(self):
-        from .symmetries import identity
-        return self.image(identity(len(self)))
+        return copy.deepcopy(self)
 
     def cluster(self, llIntegers, massive_fermions=None):
         """Returns clustered particle objects according to lists of lists of integers (e.g. corners of one loop diagram).
-- 
2.43.0


From 44538907a179e2d2aea8df1ed051fb90f443e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:06 +0000
Subject: [PATCH 03/31] fix: accept list and tuple of internal masses, do not
 alias the caller's set

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 0adb02e..197ffbc 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -65,7 +65,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             for internal_mass, value in internal_masses.items():
                 self.__setattr__(internal_mass, value)
         elif isinstance(internal_masses, (list, tuple, set)) and all(isinstance(internal_mass, str) for internal_mass in internal_masses):
-            self.internal_masses = internal_masses
+            self.internal_masses = set(internal_masses)
             for internal_mass in internal_masses:
                 self.__setattr__(internal_mass, self.field.random())
         elif internal_masses is None:
-- 
2.43.0


From 046a99e1de21355bfc09ed48c277b67e71e55cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:06 +0000
Subject: [PATCH 04/31] fix: string item access with multi-digit particle
 labels

---
 lips/particles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 197ffbc..8850043 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -393,8 +393,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if isinstance(index, str):
             if pAu.findall(index) != [] or pAd.findall(index) != [] or pSu.findall(index) != [] or pSd.findall(index) != []:
                 return self.compute(index)
-            elif re.findall(r"(\d)", index) != []:
-                return self[int(re.findall(r"(\d)", index)[0])]
+            elif re.findall(r"(\d+)", index) != []:
+                return self[int(re.findall(r"(\d+)", index)[0])]
             else:
                 raise IndexError(index)
         elif isinstance(index, slice):
-- 
2.43.0


From 1cf0eb94b75f22584dd5a3c3cd30253109e0a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:06 +0000
Subject: [PATCH 05/31] fix: adding or subtracting zero must not share spinor
 arrays with the original (e.g. single-leg corners in cluster)

---
 lips/particle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index e513018..6216406 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -9,7 +9,7 @@ import numpy
 import sympy
 import lips
 
-from copy import copy
+from copy import deepcopy
 from sympy import NotInvertible
 
 from syngular import Field
@@ -72,21 +72,21 @@ class Particle(object):
     def __add__(self, other):
         """Sum: summs the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp + other.r2_sp, field=self.field)
 
     def __radd__(self, other):
         """Sum: summs the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp + other.r2_sp, field=self.field)
 
     def __sub__(self, other):
         """Sub: subtract the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp - other.r2_sp, field=self.field)
 
-- 
2.43.0


From fd6e5fc858a01bdf509d0608b15f0fe357669dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:06 +0000
Subject: [PATCH 06/31] fix: invariants cache keyed to default options only,
 regenerate it when incomplete

---
 lips/invariants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index b208a10..8e4f4ed 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -27,7 +27,8 @@ class Invariants(object):
 
         self.multiplicity = n
 
-        if no_cached is False and self.pw_invariants is not None and Restrict3Brackets is True and Restrict4Brackets is True:
+        if (no_cached is False and no_hard_coded_ones is False and self.pw_invariants is not None and
+                Restrict3Brackets is True and Restrict4Brackets is True and FurtherRestrict4Brackets is True):
             try:
                 # Read From Cache
                 with shelve.open(self.pw_invariants, 'r') as sInvariants:
@@ -44,7 +45,7 @@ class Invariants(object):
                         self.invs_P = sInvariants[str("invs_P")]   # This is Π_ijk
                         self.invs_tr5 = sInvariants[str("invs_tr5")]   # This is tr5
                     else:
-                        raise Exception("Missing piece - regenerate invariants.")
+                        raise dbm.error[0]("Missing piece - regenerate invariants.")
 
             except dbm.error[0]:
                 if verbose:
-- 
2.43.0


From 72638eed20bec7d28f79e611b031dbc98cafd895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:07 +0000
Subject: [PATCH 07/31] fix: Invariants with FurtherRestrict4Brackets=False

---
 lips/invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index 8e4f4ed..f819879 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -455,7 +455,7 @@ def Purge4Brackets(n, invs_4, FurtherRestrict4Brackets):
         if minimal is False:
             continue
         bc = [entry.split("+") for entry in bc]
-        bc = [map(int, entry) for entry in bc]
+        bc = [list(map(int, entry)) for entry in bc]
         if FurtherRestrict4Brackets is False:                                   # check if it is neighbouring
             near = [a, a + 1, a - 1]
             if a == n:
-- 
2.43.0


From 311869bff994d78837bfb6078c2acde0735c34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:47 +0000
Subject: [PATCH 08/31] fix: momentum arithmetic in rational fields (spinors
 left undefined where a square root is not available)

---
 lips/particle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lips/particle.py b/lips/particle.py
index 6216406..905eef6 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -364,6 +364,8 @@ class Particle(object):
     def _set_r_sp_d(self, P0_plus_P3, P1_plus_iP2):  # r_sp_d is \lambda_\alpha
         if lips.spinor_convention == 'symmetric' and abs(P0_plus_P3) <= self.field.tollerance:
             raise ValueError("Encountered zero denominator in spinor.")
+        elif lips.spinor_convention == 'symmetric' and self.field.name in ("rational", "gaussian rational"):
+            raise ValueError(f"Square roots are not implemented in {self.field.name} field.")
         elif lips.spinor_convention == 'symmetric':
             lambda_one = self.field.sqrt(P0_plus_P3)
             lambda_two = P1_plus_iP2 / lambda_one
@@ -382,6 +384,8 @@ class Particle(object):
     def _set_l_sp_d(self, P0_plus_P3, P1_minus_iP2):  # l_sp_d is \bar{\lambda}_{\dot\alpha}
         if lips.spinor_convention == 'symmetric' and abs(P0_plus_P3) <= self.field.tollerance:
             raise ValueError("Encountered zero denominator in spinor.")
+        elif lips.spinor_convention == 'symmetric' and self.field.name in ("rational", "gaussian rational"):
+            raise ValueError(f"Square roots are not implemented in {self.field.name} field.")
         elif lips.spinor_convention == 'symmetric':
             lambda_one = self.field.sqrt(P0_plus_P3)
             lambda_two = P1_minus_iP2 / lambda_one
-- 
2.43.0


From f48132ec43825543d5d95050beddb1a7d1a3b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:47 +0000
Subject: [PATCH 09/31] fix: Particles.to_field also converts the reference
 vector and the internal masses

---
 lips/particles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lips/particles.py b/lips/particles.py
index 8850043..ee81e18 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -76,6 +76,10 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def to_field(self, field):
         for oP in self:
             oP.to_field(field)
+        self.oRefVec.to_field(field)
+        for internal_mass, value in self.internal_masses_dict.items():
+            if not isinstance(value, str):
+                setattr(self, internal_mass, field(value))
         self.field = field
 
     def __setattr__(self, name, value):
-- 
2.43.0


From 9020431657d40b0bc718785cf696a9490db317f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:08 +0000
Subject: [PATCH 10/31] fix: sign of tr5 when the first slot is not a single
 massless leg

---
 lips/particles_compute.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 8875cfd..fbb4c86 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -84,13 +84,15 @@ class Particles_Compute:
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
+            sign = 1                                                # tr5 is odd under cyclic rotation by one slot
             for _ in range(4):
                 if len(a) == 1:
                     break
                 a, b, c, d = b, c, d, a
+                sign = -sign
             else:
                 raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]")
+            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From fea21a0253e40fad6a301acaec18c4fe6cc0cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:33 +0000
Subject: [PATCH 11/31] fix: rational numbers in expressions must respect
 operator precedence (e.g. s_12/2/3, 3/2^2*s_12, s_12^12/5)

---
 lips/particles_eval.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 887104c..a3eb9fb 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -18,8 +18,15 @@ from syngular.monomial import non_unicode_powers
 from .tools import LeviCivita
 
 
+def _truediv(numerator, denominator):
+    """Division, exact if both arguments are integers."""
+    if isinstance(numerator, int) and isinstance(denominator, int):
+        return Fraction(numerator, denominator)
+    return numerator / denominator
+
+
 operators = {ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul,
-             ast.Div: op.truediv, ast.Pow: op.pow, ast.BitXor: op.xor,
+             ast.Div: _truediv, ast.Pow: op.pow, ast.BitXor: op.xor,
              ast.USub: op.neg, ast.UAdd: op.pos, ast.MatMult: op.matmul}
 
 
@@ -158,8 +165,6 @@ class Particles_Eval:
         string = re.sub(r'(?<!tr)(\d)\(', r'\1*(', string)
         string = re.sub(r'\)(\d)', r')*\1', string)
         string = string.replace(')(', ')*(').replace(")o", ")*o")
-        re_rat_nbr = re.compile(r"(?<!\*\*)(\d+)\/(\d+)")
-        string = re_rat_nbr.sub(r"Fraction(\1,\2)", string)
         string = re.sub(r'(?<!numpy\.)block', r'numpy.block', string)
         return string
 
-- 
2.43.0


From a451f7c640b9c9cb3673e1834095f2a6f31f611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:58 +0000
Subject: [PATCH 12/31] fix: external masses m_i within larger expressions

---
 lips/particles_eval.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index a3eb9fb..eb87c41 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -42,7 +42,6 @@ pSd = re.compile(r'(?<!\(\')(?:\[)(\d+)(?:\|)(?!\d\])(?!\d[\+|-])(?!\(\d[\+|-])(
 pSu = re.compile(r'(?<!\(\')(?<!\[\d)(?<![\+|-]\d\))(?<![\+|-]\d)(?:\|)(\d+)(?:\])(?!\'\))')
 pS2bis = re.compile(r'(?:\[)(\d)(\d)(?:\])')
 pSijk = re.compile(r'(?:s|S)(?:_){0,1}(\d+)')
-pMi = re.compile(r'(?:m|M)(?:_){0,1}(\d)')
 pMVar = re.compile(r'(?<![a-zA-Z])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
 pOijk = re.compile(r'(?:Ω_)(\d+)')
 pPijk = re.compile(r'(?:Π_)(\d+)')
@@ -139,7 +138,6 @@ class Particles_Eval:
         string = pS2bis.sub(r"[\1|\2]", string)
         string = pS2.sub(r"oPs('[\1|\2]')", string)
         string = pSijk.sub(r"oPs('s_\1')", string)
-        string = pMi.sub(r"oPs('m_\1')", string)
         string = re.sub(r"([a-zA-Z\d]+)oPs", r"\1*oPs", string)
         string = pMVar.sub(r"oPs('\1')", string)
         string = pOijk.sub(r"oPs('Ω_\1')", string)
-- 
2.43.0


From 9e003181bd299d4487277118d99bd0f87d8487f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 13/31] fix: spinor chains with ASCII angle brackets

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index fbb4c86..81e0c97 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -79,7 +79,7 @@ class Particles_Compute:
         Available variables: ⟨a|b⟩, [a|b], ⟨a|b+c|d], ⟨a|b+c|d+e|f], ..., s_ijk, Δ_ijk, Ω_ijk, Π_ijk, tr5_ijkl"""
 
         # Consistency of string check is left to ast parser.
-        temp_string = rsubs_dict(original_temp_string, bold_digits)
+        temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩")
 
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
-- 
2.43.0


From 0d096e464ec2235e80d369db205a4b0d9416a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:15 +0000
Subject: [PATCH 14/31] fix: tr5 with massive legs (use chiral traces of
 rank-two spinors)

---
 lips/particles_compute.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 81e0c97..ed98c7b 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -84,15 +84,7 @@ class Particles_Compute:
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
-            sign = 1                                                # tr5 is odd under cyclic rotation by one slot
-            for _ in range(4):
-                if len(a) == 1:
-                    break
-                a, b, c, d = b, c, d, a
-                sign = -sign
-            else:
-                raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
+            return self.compute(f"tr({a}|{b}|{c}|{d})") - self.compute(f"tr({b}|{c}|{d}|{a})")  # chiral traces, legs can be massive
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From 457f19c9ddd3bcc7e65fd1238149096f539adbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:42 +0000
Subject: [PATCH 15/31] fix: negative powers of integers in expressions must be
 exact rationals, not floats

---
 lips/particles_eval.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index eb87c41..4a33f80 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -25,8 +25,15 @@ def _truediv(numerator, denominator):
     return numerator / denominator
 
 
+def _pow(base, exponent):
+    """Power, exact if both arguments are integers."""
+    if isinstance(base, int) and isinstance(exponent, int) and exponent < 0:
+        return Fraction(base) ** exponent
+    return base ** exponent
+
+
 operators = {ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul,
-             ast.Div: _truediv, ast.Pow: op.pow, ast.BitXor: op.xor,
+             ast.Div: _truediv, ast.Pow: _pow, ast.BitXor: op.xor,
              ast.USub: op.neg, ast.UAdd: op.pos, ast.MatMult: op.matmul}
 
 
-- 
2.43.0


From e7ad2f23f36115e42d4350a67a5cd58ff5f26da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:11 +0000
Subject: [PATCH 16/31] fix: cluster translates mass aliases independently of
 the order of the corners and of their legs

---
 lips/particles.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index ee81e18..084bdc8 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -21,7 +21,7 @@ from sympy import NotInvertible
 from syngular import Field
 from pyadic import PAdic, ModP
 
-from .tools import MinkowskiMetric, flatten, subs_dict, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
+from .tools import MinkowskiMetric, flatten, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
 from .particle import Particle
 from .particles_compute import Particles_Compute
 from .particles_eval import Particles_Eval
@@ -169,9 +169,14 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         Massive legs are by default massive scalars.
         Massive fermions can be specificed as e.g.: massive_fermions=((3, 'u', all), (4, 'd', all)))
         """
-        drule1 = dict(zip(["s" + "".join(map(str, entry)) for entry in llIntegers], [f"s{i}" for i in range(1, len(llIntegers) + 1)]))
-        drule2 = dict(zip(["s_" + "".join(map(str, entry)) for entry in llIntegers], [f"s_{i}" for i in range(1, len(llIntegers) + 1)]))
-        clustered_internal_masses = {key: (subs_dict(val, drule1 | drule2) if isinstance(val, str) else val)
+        def translate(match):  # s_ijk of (a union of) corners -> s_IJK of the clustered legs
+            legs = set(map(int, match.group(2)))
+            corners = [i for i, corner in enumerate(llIntegers, start=1) if set(corner) <= legs]
+            if set(flatten([llIntegers[i - 1] for i in corners])) != legs:
+                return match.group(0)
+            return match.group(1) + "".join(map(str, corners))
+
+        clustered_internal_masses = {key: (re.sub(r"(?<![a-zA-Z])([sS]_?)(\d+)", translate, val) if isinstance(val, str) else val)
                                      for key, val in self.internal_masses_dict.items()}
         selfClustered = Particles([sum([self[i] for i in corner_as_integers]) for corner_as_integers in llIntegers],
                                   field=self.field, fix_mom_cons=False, internal_masses=clustered_internal_masses)
-- 
2.43.0


From 35d991dad4fa4688cc105911508acc213aa0c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:23 +0000
Subject: [PATCH 17/31] fix: tr5 setter keeps the sign when the four slots are
 rotated

---
 lips/hardcoded_limits/particles_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lips/hardcoded_limits/particles_set.py b/lips/hardcoded_limits/particles_set.py
index e5cfbb5..47e826e 100644
--- a/lips/hardcoded_limits/particles_set.py
+++ b/lips/hardcoded_limits/particles_set.py
@@ -467,6 +467,7 @@ class Particles_Set:
             if len(a) == 1:
                 break
             a, b, c, d = b, c, d, a
+            temp_value = -temp_value  # rotating the four slots by one is an odd permutation
         else:
             raise NotImplementedError("tr5 set implementation requires at least 1 massless particle.")
 
-- 
2.43.0


From 91da1b8e8253917663e1dc084f883e65c26401ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:24 +0000
Subject: [PATCH 18/31] =?UTF-8?q?fix:=20setting=20s=5Fijk=20together=20wit?=
 =?UTF-8?q?h=20=E2=9F=A8i|(j+k)|i]=20must=20reach=20the=20requested=20valu?=
 =?UTF-8?q?es?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lips/hardcoded_limits/particles_set_pair.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lips/hardcoded_limits/particles_set_pair.py b/lips/hardcoded_limits/particles_set_pair.py
index e2deced..8e13e33 100644
--- a/lips/hardcoded_limits/particles_set_pair.py
+++ b/lips/hardcoded_limits/particles_set_pair.py
@@ -22,10 +22,7 @@ class Particles_SetPair:
 
     def _set_pair(self, t_s1, t_v1, t_s2, t_v2):
         """Constructs a doubly singular phase space point."""
-        new_invs = self._set_pair_inner(t_s1, t_v1, t_s2, t_v2)     # set it --- note: if a list is returned then switch invariants to those
-        if type(new_invs) is list:                                  # used for example for s_123&⟨1|(2+3)|1] ---> s_123&⟨2|3⟩
-            t_s1, t_s2 = new_invs[0], new_invs[1]
-        elif type(new_invs) is str and new_invs == "Not implemented.":
+        if self._set_pair_inner(t_s1, t_v1, t_s2, t_v2) == "Not implemented.":     # set it
             raise myException("Failed to set {} to {} and {} to {}. Pair not implemented.".format(t_s1, t_v1, t_s2, t_v2))
         abs_diff1 = min(abs(self.compute(t_s1) - t_v1), abs(self.compute(t_s1) + t_v1))
         abs_diff2 = min(abs(self.compute(t_s2) - t_v2), abs(self.compute(t_s2) + t_v2))
@@ -627,10 +624,11 @@ class Particles_SetPair:
                     t_s1 = '[{}|({})|{}⟩'.format(l3Bs, l3Bc, l3Be)
                 use_mode = 2
             else:                                         # ijk contained in l3B and viceversa
-                t_s1 = t_s2                               # this is the s_ijk, s_ij+s_ik, hence s_jk case basically
-                t_s2 = '⟨{}|{}⟩'.format(l3Bm[0], l3Bm[1])
-                self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
-                return [t_s2, t_s1]                       # cheeky fix
+                # this is the s_ijk, ⟨i|(j+k)|i] = s_ijk - ⟨j|k⟩[k|j], hence s_jk case basically (values are set up to signs)
+                kj = self.compute('[{}|{}]'.format(l3Bm[1], l3Bm[0]))
+                t_v1 = t_v2 / kj - t_v1 / kj if t_v2 != t_v1 else t_v2 / kj + t_v1 / kj
+                t_s1 = '⟨{}|{}⟩'.format(l3Bm[0], l3Bm[1])
+                return self._set_pair_inner(t_s1, t_v1, t_s2, t_v2)
         elif len(free_first_flipped) >= 2:                # flip it and try again
             t_s2 = 's_{}'.format(''.join(self._complementary(list(map(str, ijk)))))
             return self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
-- 
2.43.0


From 1e252f84861ecf46caefb07ca4b40bfceb594567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:49 +0000
Subject: [PATCH 19/31] fix: equal momenta hash equally whatever the
 little-group frame of their spinors

---
 lips/particle.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index 905eef6..fed0a78 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -110,10 +110,7 @@ class Particle(object):
         return self.four_mom[key]
 
     def __hash__(self):
-        if abs(self.m2) <= self.field.tollerance:
-            return hash(tuple([tuple(self.r_sp_d.flatten()), tuple(self.l_sp_d.flatten())]))
-        else:
-            return hash(tuple(self.r2_sp.flatten()))
+        return hash(tuple(self.r2_sp.flatten()))
 
     # GETTERS and SETTERS
 
-- 
2.43.0


From b6437ed13abcf5862e5a53a5535f8d1980ad6108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:59 +0000
Subject: [PATCH 20/31] fix: contracting polarisations with helicities spelled
 differently (+/p, -/m)

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index ed98c7b..d2b3788 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -64,7 +64,7 @@ class Particles_Compute:
 
     def ee(self, i, j):
         """Contraction of two polarization tensors. Requires .helconf property to be set."""
-        if self.helconf[i - 1] == self.helconf[j - 1]:
+        if (self.helconf[i - 1] in ["-", "m"]) == (self.helconf[j - 1] in ["-", "m"]):
             return 0
         elif self.helconf[i - 1] in ["-", "m"]:
             # ε⁻ᵢ⋅ε⁺ⱼ = ⟨i|q|j] / ⟨j|q|i]
-- 
2.43.0


From 8fa5a2fa4fa6a9b8f01cb93dc6e87397b19e27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:59 +0000
Subject: [PATCH 21/31] fix: bivariate slice shifts the square spinors with
 their own parameters

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 40161ad..8c89eb5 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -75,7 +75,7 @@ class Particles_Slices:
             ys2 = sympy.symbols(f'y2_1:{len(self) + 1}')
             for i, oP in enumerate(self):
                 oP.r_sp_d = oP.r_sp_d + t1 * xs1[i] * oPShift1.r_sp_d + t2 * xs2[i] * oPShift2.r_sp_d
-                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * xs2[i] * oPShift2.l_sp_d
+                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * ys2[i] * oPShift2.l_sp_d
 
             equations = [sympy.poly(entry.expand(), modulus=self.field.characteristic ** self.field.digits) for entry in self.total_mom.flatten().tolist()]
             equations += [sympy.poly(self(constraint).expand(), modulus=self.field.characteristic ** self.field.digits) for constraint in extra_constraints]
-- 
2.43.0


From 77b67f71d1351337d6c12d4d3be27a4b317e8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:59 +0000
Subject: [PATCH 22/31] fix: slices without a seed retry after a vanishing
 parameter instead of failing

---
 lips/particles_slices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 8c89eb5..3cb43e5 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -43,7 +43,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=seed + counter if seed is not None else None)
             self.subs(xSubs)
 
         elif algorithm == 'generic':  # ring-agnostic algorithm, less efficient: ⟨ij⟩ is quadratic in t
@@ -89,7 +89,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=seed + counter if seed is not None else None)
             self.subs(xSubs)
 
         elif algorithm == 'generic':
-- 
2.43.0


From 5e73039d6322c6569414c002d99cae7b596ea4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:42 +0000
Subject: [PATCH 23/31] fix: the generic univariate slice honours its seed

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 3cb43e5..e566d4d 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -50,7 +50,7 @@ class Particles_Slices:
             multiplicity = len(self)
             I = LipsIdeal(multiplicity, extra_constraints)
             I.to_qring(I)
-            univariate_slice = I.ring.univariate_slice(self.field)
+            univariate_slice = I.ring.univariate_slice(self.field, seed=seed)
             update_particles(self, univariate_slice(t))
 
         else:
-- 
2.43.0


From da6f08236bddcc24084a5803b69e54807824044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:04 +0000
Subject: [PATCH 24/31] fix: changing the field of a massive leg converts its
 momentum

---
 lips/particle.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index fed0a78..62f51cb 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -52,10 +52,18 @@ class Particle(object):
             raise Exception('Bad Particle Constructor')
 
     def to_field(self, field):
-        self._r_sp_d = numpy.vectorize(field)(self.r_sp_d)
-        self._r_sp_d_to_r_sp_u()
-        self.l_sp_d = numpy.vectorize(field)(self.l_sp_d)
-        self.field = field
+        if self._spinors_determine_momentum:
+            self._r_sp_d = numpy.vectorize(field)(self.r_sp_d)
+            self._r_sp_d_to_r_sp_u()
+            self.l_sp_d = numpy.vectorize(field)(self.l_sp_d)
+            self.field = field
+        else:  # massive leg
+            r_sp_d, l_sp_d = self.r_sp_d, self.l_sp_d
+            self.field = field
+            self.r2_sp = numpy.vectorize(field)(self.r2_sp)
+            if hasattr(self, 'spin_index'):
+                self._r_sp_d, self._l_sp_d = numpy.vectorize(field)(r_sp_d), numpy.vectorize(field)(l_sp_d)
+                self._sps_d_to_sps_u()
 
     def __eq__(self, other):
         """Equality: checks equality of four momenta."""
@@ -352,6 +360,13 @@ class Particle(object):
 
     # PRIVATE METHODS
 
+    @property
+    def _spinors_determine_momentum(self):
+        """Whether the rank-two spinor is the outer product of the spinors. Not so for massive legs."""
+        if self.r_sp_d is None or self.l_sp_d is None or hasattr(self, 'spin_index') or self.spinors_are_in_field_extension:
+            return False
+        return all(entry == 0 or abs(entry) <= self.field.tollerance for entry in flatten(self.r2_sp_b - self.r_sp_d @ self.l_sp_d))
+
     def _r2_sp_to_r_sp_d(self):
         self._set_r_sp_d(self.r2_sp[1, 1], - self.r2_sp[1, 0])
 
-- 
2.43.0


From 412673e2e6fccfd695db0b1673cdb0201afc049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:23 +0000
Subject: [PATCH 25/31] fix: in-place substitution also substitutes into bare
 powers of a symbol

---
 lips/particles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 084bdc8..c79e0cc 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -243,7 +243,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def subs(self, myDict):
         """For all rank-1 spinor components, substitutes symbols with values from myDict."""
         for oP in self:
-            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.r_sp_d[0, 0] = oP.r_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.r_sp_d[0, 0] = ModP(oP.r_sp_d[0, 0], self.field.characteristic)
@@ -251,7 +251,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.r_sp_d[0, 0] = PAdic(oP.r_sp_d[0, 0], self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[0, 0] = sympy.poly(oP.r_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.r_sp_d[1, 0] = oP.r_sp_d[1, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.r_sp_d[1, 0] = ModP(oP.r_sp_d[1, 0], self.field.characteristic)
@@ -260,7 +260,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                 else:
                     oP.r_sp_d[1, 0] = sympy.poly(oP.r_sp_d[1, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.r_sp_d = oP.r_sp_d  # trigger setter
-            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.l_sp_d[0, 0] = oP.l_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.l_sp_d[0, 0] = ModP(oP.l_sp_d[0, 0], self.field.characteristic)
@@ -268,7 +268,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.l_sp_d[0, 0] = PAdic(oP.l_sp_d[0, 0], self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 0] = sympy.poly(oP.l_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.l_sp_d[0, 1] = oP.l_sp_d[0, 1].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "finite field":
                     oP.l_sp_d[0, 1] = ModP(oP.l_sp_d[0, 1], self.field.characteristic)
@@ -278,7 +278,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.l_sp_d[0, 1] = sympy.poly(oP.l_sp_d[0, 1], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.l_sp_d = oP.l_sp_d  # trigger setter
         for mass in self.internal_masses:
-            if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 setattr(self, mass, getattr(self, mass).subs(myDict))
             if isinstance(getattr(self, mass), (sympy.Integer, ModP)) and self.field.name == "finite field":
                 setattr(self, mass, ModP(getattr(self, mass), self.field.characteristic))
-- 
2.43.0


From 8856e90a5709dfdaaf7932f6078c6dc9009bfc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:46 +0000
Subject: [PATCH 26/31] fix: in-place substitution accepts the values 1 and -1

---
 lips/particles.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index c79e0cc..460ce6b 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -246,43 +246,45 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.r_sp_d[0, 0] = oP.r_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.r_sp_d[0, 0] = ModP(oP.r_sp_d[0, 0], self.field.characteristic)
+                    oP.r_sp_d[0, 0] = ModP(int(oP.r_sp_d[0, 0]), self.field.characteristic)
                 elif isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.r_sp_d[0, 0] = PAdic(oP.r_sp_d[0, 0], self.field.characteristic, self.field.digits)
+                    oP.r_sp_d[0, 0] = PAdic(int(oP.r_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[0, 0] = sympy.poly(oP.r_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.r_sp_d[1, 0] = oP.r_sp_d[1, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.r_sp_d[1, 0] = ModP(oP.r_sp_d[1, 0], self.field.characteristic)
+                    oP.r_sp_d[1, 0] = ModP(int(oP.r_sp_d[1, 0]), self.field.characteristic)
                 elif isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.r_sp_d[1, 0] = PAdic(oP.r_sp_d[1, 0], self.field.characteristic, self.field.digits)
+                    oP.r_sp_d[1, 0] = PAdic(int(oP.r_sp_d[1, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[1, 0] = sympy.poly(oP.r_sp_d[1, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.r_sp_d = oP.r_sp_d  # trigger setter
             if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.l_sp_d[0, 0] = oP.l_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.l_sp_d[0, 0] = ModP(oP.l_sp_d[0, 0], self.field.characteristic)
+                    oP.l_sp_d[0, 0] = ModP(int(oP.l_sp_d[0, 0]), self.field.characteristic)
                 elif isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.l_sp_d[0, 0] = PAdic(oP.l_sp_d[0, 0], self.field.characteristic, self.field.digits)
+                    oP.l_sp_d[0, 0] = PAdic(int(oP.l_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 0] = sympy.poly(oP.l_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.l_sp_d[0, 1] = oP.l_sp_d[0, 1].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "finite field":
-                    oP.l_sp_d[0, 1] = ModP(oP.l_sp_d[0, 1], self.field.characteristic)
+                    oP.l_sp_d[0, 1] = ModP(int(oP.l_sp_d[0, 1]), self.field.characteristic)
                 elif isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "padic":
-                    oP.l_sp_d[0, 1] = PAdic(oP.l_sp_d[0, 1], self.field.characteristic, self.field.digits)
+                    oP.l_sp_d[0, 1] = PAdic(int(oP.l_sp_d[0, 1]), self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 1] = sympy.poly(oP.l_sp_d[0, 1], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.l_sp_d = oP.l_sp_d  # trigger setter
         for mass in self.internal_masses:
             if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 setattr(self, mass, getattr(self, mass).subs(myDict))
-            if isinstance(getattr(self, mass), (sympy.Integer, ModP)) and self.field.name == "finite field":
+            if isinstance(getattr(self, mass), sympy.Integer):
+                setattr(self, mass, int(getattr(self, mass)))
+            if isinstance(getattr(self, mass), (int, ModP)) and self.field.name == "finite field":
                 setattr(self, mass, ModP(getattr(self, mass), self.field.characteristic))
-            elif isinstance(getattr(self, mass), (sympy.Integer, PAdic)) and self.field.name == "padic":
+            elif isinstance(getattr(self, mass), (int, PAdic)) and self.field.name == "padic":
                 setattr(self, mass, PAdic(getattr(self, mass), self.field.characteristic, self.field.digits))
             elif not isinstance(getattr(self, mass), str):
                 setattr(self, mass, sympy.poly(getattr(self, mass), modulus=self.field.characteristic ** self.field.digits).as_expr())
-- 
2.43.0


From c7d286051933bed363d8e047a02607712f85a75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:49 +0000
Subject: [PATCH 27/31] fix: a spinor chain may be followed by a line break

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index d2b3788..4d92671 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -79,7 +79,7 @@ class Particles_Compute:
         Available variables: ⟨a|b⟩, [a|b], ⟨a|b+c|d], ⟨a|b+c|d+e|f], ..., s_ijk, Δ_ijk, Ω_ijk, Π_ijk, tr5_ijkl"""
 
         # Consistency of string check is left to ast parser.
-        temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩")
+        temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩").strip()
 
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
-- 
2.43.0


From 18c10aceb96934574c403298d9226329028cd699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:22 +0000
Subject: [PATCH 28/31] fix: twistor momenta are stored as rank-two spinors,
 which every field can represent

---
 lips/particle.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index 62f51cb..b070544 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -476,10 +476,7 @@ class Particle(object):
         self._twist_x = (self._mu @ other.r_sp_u - other._mu @ self.r_sp_u) / (other.r_sp_u @ self.r_sp_d)[0, 0]
 
     def twist_x_to_mom(self, other):
-        r_two_spinor = self._twist_x - other._twist_x
-        for i in range(4):
-            self._four_mom[i] = numpy.trace(numpy.dot(Pauli[i], r_two_spinor)) / 2
-        self.four_mom = self._four_mom
+        self.r2_sp = self._twist_x - other._twist_x
 
     # OPERATIONS
 
-- 
2.43.0


From 3abea7313b21ac03eab6661f1f42c4cee0e62f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:08 +0000
Subject: [PATCH 29/31] fix: evaluate spinor strings carrying a spin index as
 documented

---
 lips/particles_eval.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 4a33f80..a426799 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -98,6 +98,13 @@ pMassiveSAu_SpinIndexd = re.compile(r'(?:⟨|<)(\d+)(_|d)\|')
 pMassiveSAd_SpinIndexd = re.compile(r'\|(\d+)(_|d)(?:⟩|>)')
 pMassiveSBd_SpinIndexu = re.compile(r'\[(\d+)(\^|u)\|')
 pMassiveSBu_SpinIndexu = re.compile(r'\|(\d+)(\^|u)\]')
+pMassiveNB = re.compile(r'[⟨\[]\d+(?:[_d\^u]\|(?:[\d\+\-\(\)]+\|)*\d+[_d\^u]?|\|(?:[\d\+\-\(\)]+\|)*\d+[_d\^u])[⟩\]]')
+
+
+def alphadot_double_open(match):
+    """Product of the slashed momenta of an open chain whose first index is dotted, i.e. contracted with a [A|."""
+    entries = match.group(1)[1:-1].split("|")
+    return "@".join(f"numpy.transpose(-ϵ @ oPs('|{entry}|') @ ϵ)" if i % 2 == 0 else f"oPs('|{entry}|')" for i, entry in enumerate(entries))
 
 
 def as_scalar_if_scalar(func):
@@ -131,6 +138,7 @@ class Particles_Eval:
         string = re.sub(r"\^(?![\]⟩>\|])", r"**", string)
         string = re.sub(r"{([\d\|]+)}", r"\1", string)
         # this needs to be at top because it relies on the rest
+        string = pMassiveNB.sub(r"(\g<0>)", string)
         string = pMassiveSAu_SpinIndexd.sub(
             lambda match: f"(ϵ@block([[⟨{int(match.group(1))}|], [⟨{int(match.group(1)) + 1}|]]))[0:1, :]@|", string)
         string = pMassiveSAd_SpinIndexd.sub(
@@ -162,7 +170,7 @@ class Particles_Eval:
         string = pNB_open_begin.sub(r"oPs('\1')", string)
         string = pNB_open_end.sub(r"oPs('\1')", string)
         string = pNB_double_open.sub(r"oPs('\1')", string)
-        string = pNB_double_open_disambiguate_alphadot.sub(r"numpy.transpose(-ϵ @ oPs('\1') @ ϵ)", string)
+        string = pNB_double_open_disambiguate_alphadot.sub(alphadot_double_open, string)
         # open index end
         string = string.replace("sqrt", "oPs.field.sqrt")
         string = re.sub(r'(\d)s', r'\1*s', string)
-- 
2.43.0


From a1981566cadf92bb5857b5e2f75cf0d2b484bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:08 +0000
Subject: [PATCH 30/31] fix: saved Mathematica points no longer contain a stray
 quote

---
 lips/particles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 460ce6b..da27c64 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -539,12 +539,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.r_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.r_sp_d[1, 0]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r'Subscript[\[Lambda], ' + str(i) + ',1] = ' + a + ";\n"
             msg += r'Subscript[\[Lambda], ' + str(i) + ',2] = ' + b + ";\n"
@@ -556,12 +556,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.l_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.l_sp_d[0, 1]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",1] = " + a + ";\n"
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",2] = " + b + ";\n"
-- 
2.43.0


From 8dd461fd090410a76c0ac8e7979f8cc18e40c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:33 +0000
Subject: [PATCH 31/31] =?UTF-8?q?fix:=20curly=20brackets=20closing=20an=20?=
 =?UTF-8?q?expression,=20e.g.=20s=5F{12}=20or=20=E2=9F=A81|2=E2=9F=A9^{2},?=
 =?UTF-8?q?=20are=20read=20as=20such?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lips/particles_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index a426799..2afb81a 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -133,10 +133,10 @@ class Particles_Eval:
         string = string.replace(r"}{", ")/(")
         string = string.replace("}+\\", ")+")
         string = string.replace("\n", "").replace(" ", "")
+        string = re.sub(r"{([\d\|]+)}", r"\1", string)
         string = re.sub(r"}$", ")", string)
         string = non_unicode_powers(string)
         string = re.sub(r"\^(?![\]⟩>\|])", r"**", string)
-        string = re.sub(r"{([\d\|]+)}", r"\1", string)
         # this needs to be at top because it relies on the rest
         string = pMassiveNB.sub(r"(\g<0>)", string)
         string = pMassiveSAu_SpinIndexd.sub(
-- 
2.43.0

