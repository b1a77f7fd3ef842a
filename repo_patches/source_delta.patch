From 582df40e705b31148f30411978ec02e83a6ad71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 01/13] fix: Roman 90,000 and 900,000 used the wrong vinculum
 pairs

90,000 was written as LC (50) and 900,000 as DM (500) under the overline,
instead of XC and CM.
---
 README.md                  | 4 ++--
 src/.crate-docs.md         | 4 ++--
 src/additive.rs            | 8 ++++----
 src/previews/RomanLower.md | 2 +-
 src/previews/RomanUpper.md | 2 +-
 src/previews/index.md      | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/README.md b/README.md
index 3a2726a..13a5c87 100644
--- a/README.md
+++ b/README.md
@@ -55,8 +55,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](https://khonsulabs.github.io/nominals/main/nominals/struct.Decimal.html): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterLower.html): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterUpper.html): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index 11b184b..dc71517 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -53,8 +53,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](Decimal): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](LetterLower): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](LetterUpper): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/additive.rs b/src/additive.rs
index 175f076..247df8c 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -87,11 +87,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("m̅", 1_000_000),
-            ("d̅m̅", 900_000),
+            ("c̅m̅", 900_000),
             ("d̅", 500_000),
             ("c̅d̅", 400_000),
             ("c̅", 100_000),
-            ("l̅c̅", 90_000),
+            ("x̅c̅", 90_000),
             ("l̅", 50_000),
             ("x̅l̅", 40_000),
             ("x̅", 10_000),
@@ -139,11 +139,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("M̅", 1_000_000),
-            ("D̅M̅", 900_000),
+            ("C̅M̅", 900_000),
             ("D̅", 500_000),
             ("C̅D̅", 400_000),
             ("C̅", 100_000),
-            ("L̅C̅", 90_000),
+            ("X̅C̅", 90_000),
             ("L̅", 50_000),
             ("X̅L̅", 40_000),
             ("X̅", 10_000),
diff --git a/src/previews/RomanLower.md b/src/previews/RomanLower.md
index 5a2d439..a933ab8 100644
--- a/src/previews/RomanLower.md
+++ b/src/previews/RomanLower.md
@@ -17,6 +17,6 @@
 | 4000    | i̅v̅           |
 | 4001    | i̅v̅i          |
 | …       | …            |
-| 999999  | d̅m̅l̅c̅i̅x̅cmxcix |
+| 999999  | c̅m̅x̅c̅i̅x̅cmxcix |
 | 1000000 | m̅            |
 | 1000001 | m̅i           |
diff --git a/src/previews/RomanUpper.md b/src/previews/RomanUpper.md
index 78f1f66..70be120 100644
--- a/src/previews/RomanUpper.md
+++ b/src/previews/RomanUpper.md
@@ -17,6 +17,6 @@
 | 4000    | I̅V̅           |
 | 4001    | I̅V̅I          |
 | …       | …            |
-| 999999  | D̅M̅L̅C̅I̅X̅CMXCIX |
+| 999999  | C̅M̅X̅C̅I̅X̅CMXCIX |
 | 1000000 | M̅            |
 | 1000001 | M̅I           |
diff --git a/src/previews/index.md b/src/previews/index.md
index ba2d42e..655e1c9 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -1,8 +1,8 @@
 - [`Decimal`]($NominalSystemDocPrefix$Decimal$NominalSystemDocSuffix$): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`]($NominalSystemDocPrefix$LetterLower$NominalSystemDocSuffix$): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`]($NominalSystemDocPrefix$LetterUpper$NominalSystemDocSuffix$): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- 
2.43.0


From f2bbbdd444654f6846423983df2018daf4b29e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 02/13] fix: ArmenianUpper wrote a trailing space after the
 letter for 1

---
 README.md             | 2 +-
 src/.crate-docs.md    | 2 +-
 src/additive.rs       | 2 +-
 src/previews/index.md | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 13a5c87..1e1eaad 100644
--- a/README.md
+++ b/README.md
@@ -60,7 +60,7 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianUpper.html): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianUpper.html): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`](https://khonsulabs.github.io/nominals/main/nominals/struct.Bengali.html): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`](https://khonsulabs.github.io/nominals/main/nominals/struct.Cambodian.html): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`](https://khonsulabs.github.io/nominals/main/nominals/struct.SimplifiedChineseInformal.html): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index dc71517..1380073 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -58,7 +58,7 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`](ArmenianUpper): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`](ArmenianUpper): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`](Bengali): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`](Cambodian): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`](SimplifiedChineseInformal): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
diff --git a/src/additive.rs b/src/additive.rs
index 247df8c..50533f7 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -242,7 +242,7 @@ where
             ("Դ", 4),
             ("Գ", 3),
             ("Բ", 2),
-            ("Ա ", 1),
+            ("Ա", 1),
         ])
         .try_format_nominal(nominal)
     }
diff --git a/src/previews/index.md b/src/previews/index.md
index 655e1c9..c2104a7 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -6,7 +6,7 @@
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`]($NominalSystemDocPrefix$ArmenianUpper$NominalSystemDocSuffix$): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`]($NominalSystemDocPrefix$ArmenianUpper$NominalSystemDocSuffix$): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`]($NominalSystemDocPrefix$Bengali$NominalSystemDocSuffix$): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`]($NominalSystemDocPrefix$Cambodian$NominalSystemDocSuffix$): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`]($NominalSystemDocPrefix$SimplifiedChineseInformal$NominalSystemDocSuffix$): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
-- 
2.43.0


From 9c2c2e801474d94a521519ddd086fd63c531a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 03/13] fix: AdditiveSet dropped the part of a number its
 symbols cannot reach

A set without a unit symbol formatted 13 as if it were 10, and 3 as an empty
string. Such numbers are now reported as out of bounds.
---
 src/additive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/additive.rs b/src/additive.rs
index 50533f7..75d9b54 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -61,7 +61,11 @@ where
             }
         }
 
-        Ok(formatted)
+        if remaining.is_zero() {
+            Ok(formatted)
+        } else {
+            Err(Error::OutOfBounds(nominal))
+        }
     }
 }
 
-- 
2.43.0


From 00eb4eb1f8ae25126367eb89e0ccefecb4b61d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 04/13] fix: long user-defined symbols panicked without the
 alloc feature

The zero symbol of an AdditiveSet and the symbols of an EnumeratedSet went
through the panicking conversion from &str; they now report OutOfMemory.
---
 src/additive.rs   | 3 ++-
 src/enumerated.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/additive.rs b/src/additive.rs
index 75d9b54..c82875e 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -41,7 +41,8 @@ where
         let mut remaining = nominal;
         if remaining.is_zero() {
             return if let Some(zero) = self.zero {
-                Ok(NominalString::from(zero))
+                formatted.try_push_str(zero).with_nominal(nominal)?;
+                Ok(formatted)
             } else {
                 Err(Error::NoZeroSymbol)
             };
diff --git a/src/enumerated.rs b/src/enumerated.rs
index c638bb3..2c11fd5 100644
--- a/src/enumerated.rs
+++ b/src/enumerated.rs
@@ -1,4 +1,4 @@
-use crate::{Error, Nominal, NominalString, NominalSystem};
+use crate::{Error, Nominal, NominalString, NominalSystem, WithNominal};
 
 /// A set of enumerated symbols that form a [`NominalSystem`].
 pub struct EnumeratedSet<const N: usize, const HAS_ZERO: bool> {
@@ -35,7 +35,9 @@ where
         if !HAS_ZERO && nominal.is_zero() {
             Err(Error::NoZeroSymbol)
         } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {
-            Ok(symbol.into())
+            let mut formatted = NominalString::new();
+            formatted.try_push_str(symbol).with_nominal(nominal)?;
+            Ok(formatted)
         } else {
             Err(Error::OutOfBounds(nominal))
         }
-- 
2.43.0


From 4f1941eaf65bc60aedb5778ae553dfa587e29741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 05/13] fix: one-based sets larger than the integer type
 counted from zero

With more digits than the integer type can count, the first digit stood for 0
instead of 1, and 0 was not reported as NoZeroSymbol.
---
 src/digital.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 38cba9c..c6b8109 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -560,7 +560,11 @@ where
 {
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         let Ok(mut count) = T::try_from(self.len()) else {
-            return Ok(NominalString::from(self.digit(nominal.as_usize())));
+            let mut index = nominal.as_usize();
+            if !self.has_zero_digit() && !self.zero_based() {
+                index = index.checked_sub(1).ok_or(Error::NoZeroSymbol)?;
+            }
+            return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
             && (if self.zero_based() {
-- 
2.43.0


From 04802fbc9ad1f94ba6ead28b211cb2b80647d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 06/13] fix: OneBased and Restrict lost the single-symbol limit
 of their collection

CjkHeavenlyStem.one_based() formatted 11 as two stems instead of using the
CjkDecimal fallback.
---
 src/digital.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/digital.rs b/src/digital.rs
index c6b8109..d266f20 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -75,6 +75,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -486,6 +490,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
-- 
2.43.0


From 86000584c0290c6561b20079d20506b42ad942bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 07/13] fix: single-symbol collections with a zero digit ran
 past their range

zero_based() is documented as irrelevant when there is a zero digit, but a
fixed collection answering false formatted its length with two digits.
---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index d266f20..58ff0ac 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -575,7 +575,7 @@ where
             return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
-            && (if self.zero_based() {
+            && (if self.has_zero_digit() || self.zero_based() {
                 nominal >= count
             } else {
                 nominal > count
-- 
2.43.0


From 9e4e748a7ecbbc35f9748bd38651404d073b2c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 08/13] fix: Restrict claimed digits that its collection does
 not have

Restricting to more digits than there are made formatting panic.
---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 58ff0ac..39f6f2d 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -503,7 +503,7 @@ where
     }
 
     fn len(&self) -> usize {
-        self.1
+        self.1.min(self.0.len())
     }
 
     fn digit(&self, index: usize) -> char {
-- 
2.43.0


From d17b1d9cc44596ea236ff0f96595a8e68cb86df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 09/13] fix: empty digit collections panicked and a lone zero
 digit looped forever

Formatting with no digits divided by zero, and a single digit standing for
zero never exhausted a positive number. Both cannot represent the number and
now report OutOfBounds.
---
 src/digital.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/digital.rs b/src/digital.rs
index 39f6f2d..84a6260 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -590,6 +590,11 @@ where
         }
 
         let one = T::from(1_u8);
+        let lone_zero = self.has_zero_digit() && count == one;
+        if count.is_zero() || (lone_zero && !nominal.is_zero()) {
+            return Err(Error::OutOfBounds(nominal));
+        }
+
         let mut formatted = NominalString::new_reverse();
 
         let mut remaining = nominal;
-- 
2.43.0


From d24605fc7045632e1a24e7942d44de52cd023670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 10/13] fix: prepending to a short forward string made a slice
 of uninitialized bytes

push_front extended the length before writing the new character, so
as_bytes_mut() built a &mut [u8] over bytes that were not initialized yet,
against its own safety comment and slice::from_raw_parts_mut's contract.
---
 src/nominalstring.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/nominalstring.rs b/src/nominalstring.rs
index 0324111..f501460 100644
--- a/src/nominalstring.rs
+++ b/src/nominalstring.rs
@@ -391,10 +391,9 @@ impl InlineString {
     }
 
     fn push_front(&mut self, ch: char, char_len: u8, inline_len: u8, new_length: u8) {
+        let mut utf8_bytes = [0; 4];
+        ch.encode_utf8(&mut utf8_bytes);
         if self.is_reverse() {
-            let mut utf8_bytes = [0; 4];
-            ch.encode_utf8(&mut utf8_bytes);
-
             let start = MaybeInline::INLINE_CAPACITY - new_length;
             let end = MaybeInline::INLINE_CAPACITY - inline_len;
             for (dest, src) in self.bytes[usize::from(start)..usize::from(end)]
@@ -407,9 +406,13 @@ impl InlineString {
         } else {
             self.bytes
                 .copy_within(0..usize::from(inline_len), usize::from(char_len));
+            for (dest, src) in self.bytes[..usize::from(char_len)]
+                .iter_mut()
+                .zip(&utf8_bytes)
+            {
+                dest.write(*src);
+            }
             self.set_length(new_length);
-
-            ch.encode_utf8(self.as_bytes_mut());
         }
     }
 }
-- 
2.43.0


From 39d5ab7eaed745b76c9361c0d90ffac7d192833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 11/13] fix: boxed and reference-counted systems ignored a
 custom format_nominal

The NominalSystem impls of Box, Rc and Arc forwarded only the fallible method,
so to_nominal() skipped an overridden format_nominal().
---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bd5f15d..dc41af7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,10 @@ impl<T> NominalSystem<T> for alloc::boxed::Box<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -70,6 +74,10 @@ impl<T> NominalSystem<T> for alloc::rc::Rc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -80,6 +88,10 @@ impl<T> NominalSystem<T> for alloc::sync::Arc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
-- 
2.43.0


From 5ee1830681707903e6f1cf2e3f47aa6d3a74364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 12/13] fix: Chinese numerals left out the zero mark after
 wholly empty groups
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

30_0000_6009_0000 was written as 三十兆六千零九万: when a group of four places
was empty and the next group had a thousands digit, the gap was not marked.
The output now agrees with the chinese-number reference the tests use.
---
 src/chinese.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chinese.rs b/src/chinese.rs
index bb07b80..173c31c 100644
--- a/src/chinese.rs
+++ b/src/chinese.rs
@@ -363,6 +363,12 @@ impl ChineseScale {
         if remaining.is_zero() {
             Ok(formatted)
         } else {
+            // The gap after this group needs to be marked even if the next
+            // group with digits has no empty leading places itself.
+            if !formatted.is_empty() && !*last_char_is_zero && remaining < scale / T::from(10) {
+                *last_char_is_zero = true;
+                formatted.try_push(characters[0])?;
+            }
             let remaining = Self::format_next_scaled_rank::<T, FORMAL, N>(
                 rank,
                 scales,
-- 
2.43.0


From 90aab0aa393832e4736e79713d189c97f9b1b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 13/13] fix: a chain longer than usize can count overflowed its
 length

---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 84a6260..952526e 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -461,7 +461,7 @@ where
     }
 
     fn len(&self) -> usize {
-        self.a.len() + self.b.len()
+        self.a.len().saturating_add(self.b.len())
     }
 
     fn digit(&self, index: usize) -> char {
-- 
2.43.0

