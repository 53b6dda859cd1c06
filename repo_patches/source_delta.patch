From af27ea096e24f83082eb9fb43940decd014bde15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 01/60] fix: resolve forward-referenced rst operands

The second pass added 0xC7 to the vector and handed the sum to write_arg, which
rejects everything that is not a vector and adds 0xC7 itself; it also left the
output position and listing flag unset. Treat RST like every other operand.
---
 pass_two.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index 7b94102..dd24297 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -162,27 +162,9 @@ void run_second_pass () {
 			//if that was successful, then write it to the file
 			if (mode & MODE_LIST)
 				listing_offset = expr_list->listing_offset;
-			if (expr_list->type == ARG_RST) {
-				switch (value) {
-					case 0x00:
-					case 0x08:
-					case 0x10:
-					case 0x18:
-					case 0x20:
-					case 0x28:
-					case 0x30:
-					case 0x38:
-						write_arg(value + 0xC7, expr_list->type, expr_list->inst_size, expr_list->or_value);
-						break;
-					default:
-						SetLastSPASMError(SPASM_ERR_INVALID_RST_OPERANDS);
-						break;
-				}
-			} else {
-				out_ptr = expr_list->out_ptr;
-				listing_on = expr_list->listing_on;
-				write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
-			}
+			out_ptr = expr_list->out_ptr;
+			listing_on = expr_list->listing_on;
+			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
 		old_expr = expr_list;
-- 
2.43.0


From e4df9cf660416f71b7ae6e0eed4c735391aff771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 02/60] fix: T-states of bit b,(ix+d) and adc a,l

bit b,(ix+d)/(iy+d) takes 20 T-states, adc a,l takes 4.
---
 opcodes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opcodes.cpp b/opcodes.cpp
index 4fc4c55..306a0a2 100644
--- a/opcodes.cpp
+++ b/opcodes.cpp
@@ -372,7 +372,7 @@ static instr adc_instrs[] = {
 	{"A,D", {0x8A}, 1, 4, 4, false, 0x00, 1},
 	{"A,E", {0x8B}, 1, 4, 4, false, 0x00, 1},
 	{"A,H", {0x8C}, 1, 4, 4, false, 0x00, 1},
-	{"A,L", {0x8D}, 1, 7, 7, false, 0x00, 1},
+	{"A,L", {0x8D}, 1, 4, 4, false, 0x00, 1},
 	{"A,(HL)", {0x8E}, 1, 7, 7, false, 0x00, 1},
 	{"A,A", {0x8F}, 1, 4, 4, false, 0x00, 1},
 	{"A,&", {0xCE}, 1, 7, 7, false, 0x00, 2},
@@ -443,8 +443,8 @@ static instr and_instrs[] = {
 	{"&", {0xE6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr bit_instrs[] = {
-	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x46, 4},
-	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x46, 4},
+	{"^,(IX@)", {0xCB, 0xDD}, 2, 20, 20, true, 0x46, 4},
+	{"^,(IY@)", {0xCB, 0xFD}, 2, 20, 20, true, 0x46, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0x40, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0x41, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0x42, 2},
-- 
2.43.0


From 3a58173aca410c9f98f1c73efb6d7704038686e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 03/60] fix: T-states of undocumented Z80 instruction forms

They were all recorded as 0 and so missing from the code counter's totals.
---
 opcodes.cpp | 240 ++++++++++++++++++++++++++--------------------------
 1 file changed, 120 insertions(+), 120 deletions(-)

diff --git a/opcodes.cpp b/opcodes.cpp
index 306a0a2..764a94f 100644
--- a/opcodes.cpp
+++ b/opcodes.cpp
@@ -690,22 +690,22 @@ static instr scf_instrs[] = {
 	{"", {0x37}, 1, 4, 4, false, 0x00, 1}};
 
 static instr set_instrs[] = {
-	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC0, 4},
-	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC0, 4},
-	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC1, 4},
-	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC1, 4},
-	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC2, 4},
-	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC2, 4},
-	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC3, 4},
-	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC3, 4},
-	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC4, 4},
-	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC4, 4},
-	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC5, 4},
-	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC5, 4},
+	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC0, 4},
+	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC0, 4},
+	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC1, 4},
+	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC1, 4},
+	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC2, 4},
+	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC2, 4},
+	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC3, 4},
+	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC3, 4},
+	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC4, 4},
+	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC4, 4},
+	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC5, 4},
+	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC5, 4},
 	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC6, 4},
 	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC6, 4},
-	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC7, 4},
-	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC7, 4},
+	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC7, 4},
+	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC7, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0xC0, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0xC1, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0xC2, 2},
@@ -716,48 +716,48 @@ static instr set_instrs[] = {
 	{"^,A", {0xCB}, 1, 8, 8, true, 0xC7, 2}};
 
 static instr sl1_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sla_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x20, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x20, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x21, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x21, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x22, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x22, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x23, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x23, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x24, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x24, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x25, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x25, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x20, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x20, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x21, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x21, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x22, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x22, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x23, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x23, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x24, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x24, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x25, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x25, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x26, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x26, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x27, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x27, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x27, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x27, 4},
 	{"B", {0x20, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x21, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x22, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -768,48 +768,48 @@ static instr sla_instrs[] = {
 	{"A", {0x27, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sll_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sra_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x28, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x28, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x29, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x29, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x28, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x28, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x29, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x29, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2F, 4},
 	{"B", {0x28, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x29, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x2A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -820,22 +820,22 @@ static instr sra_instrs[] = {
 	{"A", {0x2F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr srl_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x38, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x38, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x39, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x39, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x38, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x38, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x39, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x39, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3F, 4},
 	{"B", {0x38, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x39, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x3A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -846,10 +846,10 @@ static instr srl_instrs[] = {
 	{"A", {0x3F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sub_instrs[] = {
-	{ "A,IXH", { 0x94, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0x94, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0x95, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0x95, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0x94, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0x94, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0x95, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0x95, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0x96, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0x96, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,B", { 0x90 }, 1, 4, 4, false, 0x00, 1 },
@@ -861,10 +861,10 @@ static instr sub_instrs[] = {
 	{ "A,(HL)", { 0x96 }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,A", { 0x97 }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,&", { 0xD6 }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0x94, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0x94, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0x95, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0x95, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0x94, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0x94, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0x95, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0x95, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0x96, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0x96, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"B", {0x90}, 1, 4, 4, false, 0x00, 1},
@@ -878,10 +878,10 @@ static instr sub_instrs[] = {
 	{"&", {0xD6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr xor_instrs[] = {
-	{ "A,IXH", { 0xAC, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0xAC, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0xAD, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0xAD, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0xAC, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0xAC, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0xAD, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0xAD, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0xAE, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0xAE, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,A", { 0xAF }, 1, 4, 4, false, 0x00, 1 },
@@ -893,10 +893,10 @@ static instr xor_instrs[] = {
 	{ "A,L", { 0xAD }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,(HL)", { 0xAE }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,&", { 0xEE }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0xAC, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0xAC, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0xAD, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0xAD, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0xAC, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0xAC, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0xAD, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0xAD, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0xAE, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0xAE, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"A", {0xAF}, 1, 4, 4, false, 0x00, 1},
-- 
2.43.0


From 0506437f4f1ec5b9cd3f5741f7804ef3f563325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 04/60] fix: report errors of string operands and of lists from
 defines in .db and friends

---
 directive.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 8584e1c..4ba97c2 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -543,7 +543,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 		{
 			char *next = next_expr (word, EXPR_DELIMS);
 			if (*next != '\0') 
+			{
+				session = StartSPASMErrorSession();
+				SetLastSPASMError(SPASM_ERR_SYNTAX);
 				goto echo_error;
+			}
 			
 			reduce_string (word);
 			if (type == ES_ECHO)
@@ -676,7 +680,12 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					if (*(name_end - 1) == '(') name_end--;
 					name_end = parse_args (name_end, define, &args);
 					if (!name_end)
+					{
+						ReplaySPASMErrorSession(session);
+						EndSPASMErrorSession(session);
+						level--;
 						return (char *) ptr;
+					}
 					
 					expr = parse_define (define);
 					if (expr != NULL)
@@ -689,8 +698,12 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 
 						if (extract_arg_string(&nested_expr, &nested_context) != NULL)
 						{
-							// if it is, plug it in to the emit string
+							// if it is, plug it in to the emit string; what counts is
+							// what its elements raise, not what the list as a value did
+							EndSPASMErrorSession(session);
+							session = StartSPASMErrorSession();
 							parse_emit_string(expr, type, echo_target);
+							ReplaySPASMErrorSession(session);
 						}
 						else
 						{
-- 
2.43.0


From b8da2c7f9356c70cf80fc3588d9d31a209599b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 05/60] fix: warnings no longer count as fatal errors at the
 end of a session

---
 errors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index a67300a..0c37a94 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -123,7 +123,7 @@ bool IsSPASMErrorSessionFatal(int nSession)
 	{
 		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
 		DWORD dwError = lpError->dwErrorCode;
-		if (IsSPASMErrorFatal(dwError))
+		if (!lpError->fIsWarning && IsSPASMErrorFatal(dwError))
 		{
 			fIsFatal = true;
 			break;
@@ -250,7 +250,7 @@ int CleanupSPASMErrorSession(int nSession)
 		{
 			pPrev->next = pList->next;
 		}
-		if(IsSPASMErrorFatal(lpErr->dwErrorCode)) {
+		if(!lpErr->fIsWarning && IsSPASMErrorFatal(lpErr->dwErrorCode)) {
 			fatalErrorCount++;
 		}
 		FreeErrorInstance(lpErr);
-- 
2.43.0


From 18299d64f1ab027eae9dbeb5af4310f4eb37ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 06/60] fix: errors and warnings shown by an error session
 raise the exit status

---
 errors.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/errors.cpp b/errors.cpp
index 0c37a94..913f96e 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -30,6 +30,12 @@ int g_nErrorSession = 0;
 
 static void PrintSPASMError(const LPERRORINSTANCE lpError)
 {
+	if (lpError->dwErrorCode != SPASM_ERR_SUCCESS)
+	{
+		const EXIT_STATUS status = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
+		if (exit_code < status) exit_code = status;
+	}
+
 	if (mode & MODE_CODE_COUNTER)
 	{
 		return;
-- 
2.43.0


From 64a1dd994c36b96d1735b31067f05adce6a4881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 07/60] fix: report a macro argument without value used in .db
 and friends

---
 directive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 4ba97c2..8996e73 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -674,7 +674,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					//handle defines
 					if (define->contents == NULL)
 					{
-						SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, name);
+						if (!IsErrorInSPASMErrorSession(session, SPASM_ERR_ARG_USED_WITHOUT_VALUE))
+						{
+							SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, name);
+						}
+						ReplaySPASMErrorSession(session);
 					}
 					
 					if (*(name_end - 1) == '(') name_end--;
-- 
2.43.0


From da58ec362b11448d1ec2248894ff09807c5adeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 08/60] fix: one message per diagnostic code

---
 errors.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/errors.h b/errors.h
index 6f8843d..58e8402 100644
--- a/errors.h
+++ b/errors.h
@@ -109,7 +109,6 @@ SPASMERROR g_ErrorCodes[]
 	{SPASM_ERR_ELIF_WITHOUT_IF,			_T("Use of #ELIF outside of an #IF expression")},
 	{SPASM_ERR_INVALID_OPTION,			_T("The option %s does not exist")},
 	{SPASM_ERR_INVALID_ADDINSTR,		_T("Required information for .ADDINSTR is missing or invalid")},
-	{SPASM_ERR_INVALID_RST_OPERANDS,	_T("Invalid operands for the RST command")},
 	{SPASM_ERR_DEFINE_HAS_NO_VALUE,		_T("The define '%s' has been used, but doesn't have a value")},
 	{SPASM_ERR_RECURSION_DEPTH,			_T("Expression is too deep (only %d levels allowed)")},
 	{SPASM_ERR_LABEL_CONFLICT,			_T("Conflicting definition of '%s' at %s:%d")},
-- 
2.43.0


From bb3e580269224bcf5471eddf036a6dc1542e107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 09/60] fix: pass the name the message of an invalid buf() call
 asks for

---
 pass_one.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 3dc4340..f3e1ac5 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -341,7 +341,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			if (parse_num(buf, &value)) {
 				cur_buf = value;
 			} else {
-				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
+				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, "buf");
 			}
 			ptr++;
 		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
-- 
2.43.0


From 3b825b125b444bf24f59debb7bf9ef7156ce8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 10/60] fix: reject fcreate buffer numbers outside the table of
 buffers

---
 pass_one.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index f3e1ac5..1194c75 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -338,7 +338,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			int value;
 			ptr++;
 			read_expr(&ptr, buf, _T(")"));
-			if (parse_num(buf, &value)) {
+			if (parse_num(buf, &value) && value >= 0 && value < MAX_BUFFERS) {
 				cur_buf = value;
 			} else {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, "buf");
-- 
2.43.0


From 533b1e0963182f4f37dc678ddcbf0e8ef653dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 11/60] fix: release an fcreate buffer before its code runs

---
 pass_one.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 1194c75..517e1af 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -372,6 +372,10 @@ char *handle_opcode_or_macro (char *ptr) {
 			{
 				char *fcreate_string = eb_extract(eb_fcreate);
 
+				//the code may select, clear or run buffers itself, so let go of this one first
+				eb_free(eb_fcreate);
+				fcreate_bufs[cur_buf] = NULL;
+
 				//make sure the listing for this line is finished up BEFORE
 				// the new file is parsed and writes its listing stuff all over
 				if (mode & MODE_LIST && listing_on && !listing_for_line_done)
@@ -412,8 +416,6 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 
 				free(fcreate_string);
-				eb_free(fcreate_bufs[cur_buf]);
-				fcreate_bufs[cur_buf] = NULL;
 
 				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
-- 
2.43.0


From a8c1dfd4c17b025b9e6372993f769b381b33ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 12/60] fix: formats of the unsupported bitmap message

---
 bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0e2639a..1bb36e4 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -355,7 +355,7 @@ void handle_bitmap(FILE *file)
 	fread (&bi, sizeof (BITMAPINFOHEADER), 1, file);
 
 	if (_DW(bi.biSize) != sizeof (BITMAPINFOHEADER) || _DW(bi.biCompression) != BI_RGB) {
-		show_error ("Bitmap file of this type not supported: size: %ld, compression: %ld\n", _DW(bi.biSize), _DW(bi.biCompression));
+		show_error ("Bitmap file of this type not supported: size: %u, compression: %u\n", _DW(bi.biSize), _DW(bi.biCompression));
 		return;
 	}
 
-- 
2.43.0


From df2990125dae2528327b662b3c27747184fd56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 13/60] fix: keep the warnings of expressions that wait for
 pass two

---
 pass_two.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index dd24297..4c4fc17 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -73,17 +73,14 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		write_arg (0, type, inst_size, 0);
 
 	}
-	else if (fResult == false)
-	{
-		ReplaySPASMErrorSession(session);
-	}
-	else
+	else if (fResult)
 	{
 		//write the value now
 		write_arg (value, type, inst_size, or_value);
-		ReplaySPASMErrorSession(session);
 	}
 
+	//symbols which aren't known yet are not fatal and thus not shown in the end
+	ReplaySPASMErrorSession(session);
 	EndSPASMErrorSession(session);
 }
 
-- 
2.43.0


From e062ee3b4922abd6ecc7fd21332516dd9e743287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 14/60] fix: keep the warnings of evaluated macro arguments

---
 utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index 60c5e22..5b3014b 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -234,6 +234,11 @@ char *eval (const char *expr)
 
 	int session = StartSPASMErrorSession();
 	bool fResult = parse_num (expr, &value);
+	if (fResult)
+	{
+		//errors come up again when the expression is used, warnings would not
+		ReplaySPASMErrorSession(session);
+	}
 	EndSPASMErrorSession(session);
 	if (fResult)
 	{
-- 
2.43.0


From 5a6157214080f125db9204b60105a49d62e5f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 15/60] fix: -D name without value no longer takes the next
 argument as its value

---
 main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 39c3962..f2864ae 100644
--- a/main.cpp
+++ b/main.cpp
@@ -361,7 +361,7 @@ int main (int argc, char **argv)
 				read_expr (&ptr, name, "=");
 
 				define = add_define (strdup (name), NULL);
-				if (*skip_whitespace (++ptr) != '\0')
+				if (*ptr != '\0' && *skip_whitespace (++ptr) != '\0')
 					define->contents = strdup (ptr);
 				else
 					set_define (define, "1", 1, false);
-- 
2.43.0


From 733ad6fb1f711688bc886cf2dfabfb3f1a234948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 16/60] fix: add command line defines after all options are
 known

---
 main.cpp | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/main.cpp b/main.cpp
index f2864ae..ff011ce 100644
--- a/main.cpp
+++ b/main.cpp
@@ -255,7 +255,7 @@ int main (int argc, char **argv)
 {
 	int curr_arg = 1;
 	bool case_sensitive = false;
-	bool is_storage_initialized = false;
+	list_t *command_defines = NULL, *command_define;
 
 	use_colors = true;
 	extern WORD user_attributes;
@@ -337,15 +337,7 @@ int main (int argc, char **argv)
 			//handle adding defines
 			case 'D':
 			{
-				char name[256];
 				char *ptr;
-				define_t *define;
-
-				if (!is_storage_initialized)
-				{
-					init_storage();
-					is_storage_initialized = true;
-				}
 
 				if (strlen (argv[curr_arg]) > 2) {
 					ptr = &argv[curr_arg][2];
@@ -358,13 +350,8 @@ int main (int argc, char **argv)
 					ptr = argv[++curr_arg];
 				}
 
-				read_expr (&ptr, name, "=");
-
-				define = add_define (strdup (name), NULL);
-				if (*ptr != '\0' && *skip_whitespace (++ptr) != '\0')
-					define->contents = strdup (ptr);
-				else
-					set_define (define, "1", 1, false);
+				//defined once all options are known, as -A may still follow
+				command_defines = list_append (command_defines, ptr);
 				break;
 			}
 			case 'V':
@@ -438,11 +425,25 @@ int main (int argc, char **argv)
 		output_filename = change_extension (curr_input_file, "bin");
 	}
 
-	if (!is_storage_initialized)
+	init_storage();
+
+	//add the defines given on the command line
+	for (command_define = command_defines; command_define != NULL; command_define = command_define->next)
 	{
-		init_storage();
-		is_storage_initialized = true;
+		char name[256];
+		char *ptr = (char *) command_define->data;
+		define_t *define;
+
+		read_expr (&ptr, name, "=");
+
+		define = add_define (strdup (name), NULL);
+		if (*ptr != '\0' && *skip_whitespace (++ptr) != '\0')
+			define->contents = strdup (ptr);
+		else
+			set_define (define, "1", 1, false);
 	}
+	list_free (command_defines, false, NULL);
+
 	output_contents = (unsigned char *) malloc(output_buf_size);
 	ClearSPASMErrorSessions();
 
-- 
2.43.0


From 9dcab7cfb7f66f8f6785b00450e1a20821f334eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 17/60] fix: no output after a fatal error that is shown
 directly

---
 errors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.cpp b/errors.cpp
index 913f96e..c66c61b 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -233,7 +233,7 @@ void EndSPASMErrorSession(int nSession) {
 	int fatalErrors = CleanupSPASMErrorSession(nSession);
 	DPRINT("[EndSPASMErrorSession] fatal errs = %d\n", fatalErrors);
 	
-	if (nSession == 1 && fatalErrors > 0)
+	if (nSession == 1 && (fatalErrors > 0 || error_occurred))
 		exit(EXIT_FATAL_ERROR);
 }
 
-- 
2.43.0


From a01a056d6f43cda1b022ad3971d8e1f63c3aca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 18/60] fix: report macros without value in .db and friends

---
 directive.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 8996e73..4f59c7b 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -736,6 +736,10 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						}
 						free (expr);
 					}
+					else
+					{
+						ReplaySPASMErrorSession(session);
+					}
 					remove_arg_set (args);
 				}
 				else
-- 
2.43.0


From cca9948335796b637af692786940743414b8f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 19/60] fix: keep the source line while a define is expanded in
 .db and friends

---
 directive.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 4f59c7b..1a021b1 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -691,7 +691,10 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						return (char *) ptr;
 					}
 					
+					//the lines of the definition are not lines of the source
+					const int source_line_num = line_num;
 					expr = parse_define (define);
+					line_num = source_line_num;
 					if (expr != NULL)
 					{
 						arg_context_t nested_context = ARG_CONTEXT_INITIALIZER;
-- 
2.43.0


From 2d17102bb632b486682b5573310100213f43dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 20/60] fix: line number after pass two is no longer that of
 the last deferred expression

---
 pass_two.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pass_two.cpp b/pass_two.cpp
index 4c4fc17..9d634ac 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -135,6 +135,7 @@ void run_second_pass () {
 	unsigned char *saved_out_ptr = out_ptr;
 	int saved_listing_offset = listing_offset;
 	char* old_input_file = curr_input_file;
+	int saved_line_num = line_num;
 
 	pass_one = false;
 
@@ -218,6 +219,7 @@ void run_second_pass () {
 		free (old_output);
 	}
 	curr_input_file = old_input_file;
+	line_num = saved_line_num;
 }
 
 
-- 
2.43.0


From fc1a9341c907c26262be1d1b937b1678bc43590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 21/60] fix: nested evaluation no longer resets the recursion
 limit of expressions

---
 parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index ea53f75..d1effa7 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -116,8 +116,11 @@ bool parse_num (const char *expr, int *value) {
 	if (value == NULL)
 		value = &fake_value;
 
-	parse_depth = 0;
+	//an expression evaluated while another one is (as the argument of a macro, say) counts
+	//towards the same limit, and leaves the depth as it was even if it could not be evaluated
+	const int outer_depth = parse_depth;
 	result = parse_num_full (expr, value, 0);
+	parse_depth = outer_depth;
 
 	if (!result)
 		*value = 0;
-- 
2.43.0


From a3fbd78e37cc55841d7b17b1a7a03f0df5c832da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 22/60] fix: eval() in an expression ends at its closing
 parenthesis

---
 parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index d1effa7..92bf073 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -342,7 +342,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 					} else if (!strcasecmp (name, "eval") && *expr == '(') {
 						free(name);
 						//show_warning ("eval() has no effect except in #define");
-						expr = parse_num_full (expr, value, 0);
+						expr = parse_num_full (expr + 1, value, 1);
 						//then a normal label
 					}
 					else if (!strcasecmp (name, "getc") && *expr == '(')
-- 
2.43.0


From dcbcbc95139801c45817c11d5df2bbeb1dbbd88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:55 +0000
Subject: [PATCH 23/60] fix: report numeric prefixes without digits

---
 parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 92bf073..c7ef3a8 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -660,6 +660,13 @@ static const char *parse_num_full (const char *expr, int *value, int depth) {
 static bool conv_generic(const char *str, const char *end, int *output_num,
                   int base, int error_code) {
 	char *ep;
+
+	//a prefix that is not followed by any digits
+	if (str == end) {
+		SetLastSPASMError(SPASM_ERR_VALUE_EXPECTED);
+		return false;
+	}
+
 	long long value = _strtoi64(str, &ep, base);
 
 	if (ep < end) {
-- 
2.43.0


From 26aea4e34b63813aa2bb415752319ef5e124f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 24/60] fix: do not read past an expression that ends in an
 open character literal

---
 parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index c7ef3a8..31dec9d 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -279,6 +279,10 @@ static const char *parse_single_num (const char *expr, int *value) {
 		case '\'':
 		{
 			*value = *(++expr);
+			if (*expr == '\0' || (*expr == '\\' && expr[1] == '\0')) {
+				SetLastSPASMError(SPASM_ERR_VALUE_EXPECTED);
+				return NULL;
+			}
 			if (*value == '\\') {
 				switch (toupper (*(++expr))) {
 					case 'N': 	*value = '\n'; break;
-- 
2.43.0


From 4e249576a9b7eb2fa64e6d12cee31356f9c685ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 25/60] fix: limit the nesting of macro argument expansions

---
 parser.cpp |  8 +++++++-
 utils.cpp  | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 31dec9d..546de7f 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -90,6 +90,7 @@ extern int line_num;
 extern bool error_occurred;
 extern bool pass_one;
 extern unsigned int program_counter;
+extern int expand_level;
 
 static const char *parse_single_num (const char *expr, int *value);
 static const char *parse_num_full (const char *expr, int *value, int depth);
@@ -100,6 +101,8 @@ static bool conv_bin (const char* str, const char *end, int *output);
 bool parser_forward_ref_err;
 //current recursive depth in expression
 int parse_depth;
+//set when an evaluation nests too deeply, until the outermost one has ended
+bool recursion_exceeded;
 
 /*
  * Parses an expression, sets
@@ -121,6 +124,8 @@ bool parse_num (const char *expr, int *value) {
 	const int outer_depth = parse_depth;
 	result = parse_num_full (expr, value, 0);
 	parse_depth = outer_depth;
+	if (outer_depth == 0 && expand_level == 0)
+		recursion_exceeded = false;
 
 	if (!result)
 		*value = 0;
@@ -508,8 +513,9 @@ static const char *parse_num_full (const char *expr, int *value, int depth) {
 	const char *const expr_start = expr;
 
 	parser_forward_ref_err = false;
-	if (++parse_depth > RECURSION_LIMIT)
+	if (++parse_depth > RECURSION_LIMIT || recursion_exceeded)
 	{
+		recursion_exceeded = true;
 		SetLastSPASMError(SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
 		return NULL;
 	}
diff --git a/utils.cpp b/utils.cpp
index 5b3014b..a527605 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -792,6 +792,11 @@ int strnlen (const char *str, int maxlen) {
  * text replacements
  */
 
+//number of expansions in progress: the arguments of a macro are expanded on their own
+int expand_level;
+extern int parse_depth;
+extern bool recursion_exceeded;
+
 static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local) {
 	const char *block_start;
 	char *name;
@@ -800,8 +805,8 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 	label_t *label;
 	int name_len;
 
-	if (depth > RECURSION_LIMIT) {
-		SetLastSPASMError (SPASM_ERR_RECURSION_DEPTH, RECURSION_LIMIT);
+	if (depth + expand_level > RECURSION_LIMIT || recursion_exceeded) {
+		recursion_exceeded = true;
 		return;
 	}
 
@@ -841,7 +846,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 				expand_expr_full (define->contents, new_expr, depth + 1, search_local);
 				remove_arg_set (args);
-				if (error_occurred) {
+				if (error_occurred || recursion_exceeded) {
 					free(name);
 					return;
 				}
@@ -881,7 +886,14 @@ char *expand_expr (const char *expr, bool search_local) {
 
 	new_expr = eb_init(strlen(expr) * 2);
 
+	expand_level++;
 	expand_expr_full (expr, new_expr, 0, search_local);
+	expand_level--;
+	if (recursion_exceeded && expand_level == 0 && parse_depth == 0) {
+		//the outermost expansion reports it (when there is an evaluation around it, that does)
+		recursion_exceeded = false;
+		SetLastSPASMError (SPASM_ERR_RECURSION_DEPTH, RECURSION_LIMIT);
+	}
 	new_expr_text = eb_extract (new_expr);
 	eb_free (new_expr);
 
-- 
2.43.0


From 02059700582e1ea0e14e1ce1be5411a17b8ca6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 26/60] fix: labels with large values are no longer cut short
 in deferred expressions

---
 utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index a527605..c14a673 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -852,7 +852,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
-				char buf[10];
+				char buf[12];
 				snprintf (buf, sizeof(buf), "%d", label->value);
 				eb_append (new_expr, buf, -1);
 				expr += name_len;
-- 
2.43.0


From 7a35013e51c32013b22dd2d38c9bac3a6500a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 27/60] fix: a list definition that contains itself is reported
 instead of exhausting the stack

---
 directive.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 1a021b1..96d31b8 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -526,17 +526,23 @@ void show_define (define_t *define) {
  * to the program output
  */
 
+#define EMIT_LEVEL_LIMIT 256
+
 char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 	static int level = 0;
+	//set when lists nest too deeply (one contains itself), until the outermost one has ended
+	static bool too_deep = false;
 	char *word = NULL;
 	int session;
 	bool fWasParsed;
 	char *name_end;
 
 	level++;
+	if (level > EMIT_LEVEL_LIMIT)
+		too_deep = true;
 
 	arg_context_t context = ARG_CONTEXT_INITIALIZER;
-	while ((word = extract_arg_string(&ptr, &context)) != NULL)
+	while (!too_deep && (word = extract_arg_string(&ptr, &context)) != NULL)
 	{
 		// handle strings
 		if (word[0] == '"')
@@ -774,6 +780,11 @@ echo_error:
 		}
 	}
 
+	if (too_deep && level == 1) {
+		too_deep = false;
+		SetLastSPASMError(SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+	}
+
 	if (type == ES_ECHO && level == 1) {
 		if (echo_target == stdout) putchar ('\n');
 		else {
-- 
2.43.0


From b0c6c06790084bdfcf5533ceaeed27c9db0630fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:45 +0000
Subject: [PATCH 28/60] fix: evaluate macro arguments in the scope of the
 invocation

---
 utils.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index c14a673..08de5e4 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -266,6 +266,8 @@ char *eval (const char *expr)
  * holding the values of the args
  */
 
+extern list_t *arg_list;
+
 char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 	int num_args = 0;
 
@@ -299,8 +301,13 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 				}
 				else
 				{
-					label_t *label = search_labels(define->name);
-					add_arg(strdup(define->args[num_args++]), eval(word), *curr_arg_set);
+					//an argument is evaluated where the invocation stands, so the ones
+					//already set for it are not visible meanwhile
+					list_t *const own_args = *curr_arg_set;
+					arg_list = (list_t *) own_args->next;
+					char *value = eval(word);
+					arg_list = own_args;
+					add_arg(strdup(define->args[num_args++]), value, *curr_arg_set);
 					//free(evald_word);
 				}
 
-- 
2.43.0


From 585d3e4f4aacbd26fb3671747243b9d1d8805969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:14 +0000
Subject: [PATCH 29/60] fix: a forward reference in .org, .fill, .block or
 .seek is reported instead of taken as zero

---
 directive.cpp |  9 +++++----
 errors.h      |  2 ++
 parser.cpp    | 19 +++++++++++++++++++
 parser.h      |  1 +
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 96d31b8..2219d66 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -77,7 +77,7 @@ char *handle_directive (const char *ptr) {
 			bool fResult = read_expr(&ptr, value_str, "");
 			if (fResult == true)
 			{
-				if (parse_num(value_str, &value) == true)
+				if (parse_num_now(value_str, &value) == true)
 				{
 					if (value < 0)
 					{
@@ -104,14 +104,14 @@ char *handle_directive (const char *ptr) {
 			//listing_on = false;
 
 			read_expr (&ptr, szSize, ",");
-			parse_num (szSize, &size);
+			parse_num_now (szSize, &size);
 			ptr = skip_whitespace (ptr);
 			if (*ptr == ',')
 				ptr++;
 
 			if (read_expr (&ptr, szFill, "")) {
 				//if there's a value to fill the block with, then handle that
-				parse_num (szFill, &fill_value);
+				parse_num_now (szFill, &fill_value);
 			} else {
 				//otherwise use 0
 				fill_value = 0;
@@ -440,7 +440,8 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			parse_num (value_str, (int *) &value);
+			if (!parse_num_now (value_str, &value))
+				break;
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
diff --git a/errors.h b/errors.h
index 58e8402..ee859a1 100644
--- a/errors.h
+++ b/errors.h
@@ -43,6 +43,7 @@ SPASMERROR, *LPSPASMERROR;
 #define SPASM_ERR_RECURSION_DEPTH			0x129
 #define SPASM_ERR_LABEL_CONFLICT			0x130
 #define SPASM_ERR_INVALID_INDEX_OFFSET		0x131
+#define SPASM_ERR_VALUE_NOT_KNOWN			0x132
 
 #define SPASM_ERR_INVALID_DECIMAL_DIGIT		0x200
 #define SPASM_ERR_INVALID_HEX_DIGIT			0x201
@@ -113,6 +114,7 @@ SPASMERROR g_ErrorCodes[]
 	{SPASM_ERR_RECURSION_DEPTH,			_T("Expression is too deep (only %d levels allowed)")},
 	{SPASM_ERR_LABEL_CONFLICT,			_T("Conflicting definition of '%s' at %s:%d")},
 	{SPASM_ERR_INVALID_INDEX_OFFSET,	_T("Index offset is expected to begin with '+' or '-' or be missing")},
+	{SPASM_ERR_VALUE_NOT_KNOWN,			_T("The value of '%s' must be known at this point")},
 
 	{SPASM_ERR_INVALID_DECIMAL_DIGIT,	_T("Invalid digit '%c' in the decimal number '%s'")},
 	{SPASM_ERR_INVALID_HEX_DIGIT,		_T("Invalid digit '%c' in the hexadecimal number '%s'")},
diff --git a/parser.cpp b/parser.cpp
index 546de7f..63e3a38 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -133,6 +133,25 @@ bool parse_num (const char *expr, int *value) {
 	return (result != NULL);
 }
 
+/*
+ * Parses an expression whose value
+ * is needed at once: what would wait
+ * for the second pass elsewhere is an
+ * error here
+ */
+
+bool parse_num_now (const char *expr, int *value) {
+	int session = StartSPASMErrorSession();
+	const bool success = parse_num (expr, value);
+	const bool unresolved = !success && !IsSPASMErrorSessionFatal(session);
+	ReplaySPASMErrorSession(session);
+	EndSPASMErrorSession(session);
+
+	if (unresolved)
+		SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, expr);
+	return success;
+}
+
 /*
  * Parses expression,
  * ignoring errors
diff --git a/parser.h b/parser.h
index 6cb90f9..ffe1d8e 100644
--- a/parser.h
+++ b/parser.h
@@ -8,6 +8,7 @@
 extern bool parser_forward_ref_err;
 
 bool parse_num (const char *expr, int *value);
+bool parse_num_now (const char *expr, int *value);
 char *parse_define (define_t *define);
 int parse_f (const char *expr);
 bool conv_hex (const char *start, const char *end, int *output_num);
-- 
2.43.0


From a81d1bf0ffbb1112de245e868f61adbe4bbf94aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 30/60] fix: macros whose name begins buf, clr, wr or run are
 not taken for the built-in of that name

---
 pass_one.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 517e1af..9c63348 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -262,6 +262,13 @@ char *run_first_pass_line_sec (char *ptr) {
 }
 
 
+//whether the text from start to end is the given name
+static bool is_name(const char *start, const char *end, const char *name)
+{
+	const size_t len = strlen(name);
+	return (size_t) (end - start) == len && !strncasecmp(start, name, len);
+}
+
 static define_t *search_defines_helper(const char *name_start, size_t len)
 {
 	char *name = strndup(name_start, len);
@@ -333,7 +340,7 @@ char *handle_opcode_or_macro (char *ptr) {
 		//if this name doesn't match an opcode, it must be a macro (#macro OR #define)
 		define_t *define;
 #ifdef USE_BUILTIN_FCREATE
-		if (!strncasecmp (name_start, "buf", name_end - name_start) && *ptr == '(') {
+		if (is_name (name_start, name_end, "buf") && *ptr == '(') {
 			char buf[256];
 			int value;
 			ptr++;
@@ -344,7 +351,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, "buf");
 			}
 			ptr++;
-		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
+		} else if (is_name (name_start, name_end, "clr") && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
 				eb_free(eb_fcreate);
@@ -352,7 +359,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
 			ptr += 2;
-		} else if (!strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
+		} else if (is_name (name_start, name_end, "wr") && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
 				eb_fcreate = eb_init(128);
@@ -362,7 +369,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
 			ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
-		} else if (!strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
+		} else if (is_name (name_start, name_end, "run") && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL)
 			{
-- 
2.43.0


From 7611fd31b29b54c26668100383fd5158fc1fd7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 31/60] fix: do not read past the end of a buf, clr, wr or run
 call without its closing parenthesis

---
 pass_one.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 9c63348..eb9f945 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -350,7 +350,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			} else {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, "buf");
 			}
-			ptr++;
+			if (*ptr == ')') ptr++;
 		} else if (is_name (name_start, name_end, "clr") && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
@@ -358,7 +358,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
-			ptr += 2;
+			if (*++ptr == ')') ptr++;
 		} else if (is_name (name_start, name_end, "wr") && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
@@ -367,7 +367,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
-			ptr++;
+			if (*ptr == ')') ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
 		} else if (is_name (name_start, name_end, "run") && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
@@ -431,7 +431,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 				EndSPASMErrorSession(session);
 			}
-			ptr += 2;
+			if (*++ptr == ')') ptr++;
 		} else
 #endif
 
-- 
2.43.0


From 265413e9a4c6698a069a7749151846b4283ac333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 32/60] fix: limit the nesting of includes, macros and
 generated source

---
 pass_one.cpp | 14 ++++++++++++--
 preop.cpp    | 11 ++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index eb9f945..2ec8079 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -26,6 +26,9 @@ int parse_suffix (char **opcode_end);
 char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr);
 int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_ptrs, int suffix);
 
+//macros inside macros: more than any program needs, less than the stack has room for
+#define MACRO_LEVEL_LIMIT 1000
+
 bool adl_mode;
 int listing_width;
 const char *last_banner = NULL;
@@ -404,7 +407,10 @@ char *handle_opcode_or_macro (char *ptr) {
 
 				int session = StartSPASMErrorSession();
 
-				run_first_pass(fcreate_string);
+				if (++in_macro > MACRO_LEVEL_LIMIT)
+					show_fatal_error("Macros are nested too deeply, the limit is %d", MACRO_LEVEL_LIMIT);
+				else
+					run_first_pass(fcreate_string);
 
 				curr_input_file = old_input_file;
 				line_num = old_line_num;
@@ -446,7 +452,11 @@ char *handle_opcode_or_macro (char *ptr) {
 			
 			ptr = args_end;
 
-			if (!IsSPASMErrorSessionFatal(session))
+			if (in_macro >= MACRO_LEVEL_LIMIT)
+			{
+				show_fatal_error("Macros are nested too deeply, the limit is %d", MACRO_LEVEL_LIMIT);
+			}
+			else if (!IsSPASMErrorSessionFatal(session))
 			{
 				in_macro++;
 
diff --git a/preop.cpp b/preop.cpp
index 8c33b0d..ed891ae 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -441,8 +441,11 @@ char *full_path (const char *filename) {
  * in file
  */
 
+#define INCLUDE_LEVEL_LIMIT 100
+
 static char *handle_preop_include (char *ptr)
 {
+	static int include_level = 0;
 	char name[MAX_PATH], *file_path;
 	FILE *file;
 	char *qs, *alloc_path, *input_contents, *old_input_file, *old_line_start;
@@ -531,7 +534,13 @@ static char *handle_preop_include (char *ptr)
 		curr_input_file = alloc_path;
 
 		//now parse the file
-		run_first_pass (input_contents);
+		if (include_level >= INCLUDE_LEVEL_LIMIT) {
+			show_fatal_error ("#INCLUDEs are nested too deeply, the limit is %d", INCLUDE_LEVEL_LIMIT);
+		} else {
+			include_level++;
+			run_first_pass (input_contents);
+			include_level--;
+		}
 
 		//when done, swap the old curr_X values back in
 		curr_input_file = old_input_file;
-- 
2.43.0


From 86139ff7b381033575bcdda55373f306f06ba5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 33/60] fix: #import of a file that is found nowhere names the
 file

---
 preop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index ed891ae..1a23f1c 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -598,10 +598,10 @@ char *handle_preop_import (char *ptr) {
 	char *file_path = full_path(qs);
 
 	//...and read it in
-	import_file = fopen(file_path, "rb");
+	import_file = file_path ? fopen(file_path, "rb") : NULL;
 	if (!import_file)
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, file_path);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		free(file_path);
 		return ptr;
 	}
-- 
2.43.0


From ab3e76c3df0472f89c63a4ff873483c741016304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:25 +0000
Subject: [PATCH 34/60] fix: an argument of concat() whose value is not known
 yet is reported instead of left out

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 1a23f1c..de43876 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -366,7 +366,7 @@ char *handle_preop_define (const char *ptr) {
 							free(define_buffer);
 						}
 					}
-					else if (parse_num(arg, &value) == true)
+					else if (parse_num_now(arg, &value) == true)
 					{
 						char num_buf[256];
 						sprintf (num_buf, "%d", value);
-- 
2.43.0


From f0eca62f5c06bf4167080755a9205b168fba646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 35/60] fix: ti-85/86 string files and names over eight
 characters store the lengths that are written

---
 export.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/export.cpp b/export.cpp
index a4c0d63..53891fe 100644
--- a/export.cpp
+++ b/export.cpp
@@ -464,7 +464,7 @@ int siggen(const unsigned char* hashbuf, unsigned char* sigbuf, int* outf) {
 #endif /* NO_APPSIGN */
 
 void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, const char *prgmname, calc_type calc) {
-	int i, temp, chksum;
+	int i, temp, chksum, name_len;
 	unsigned char* pnt;
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
@@ -495,6 +495,9 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 			alphanumeric (namestring, calc == TYPE_8XV);
 		}
 	}
+	/* Only the first eight characters of the name are stored */
+	name_len = strlen (namestring);
+	if (name_len > 8) name_len = 8;
 	/* get size */
 	if (calc==TYPE_83P) {
 		size *= 2; // Double size to account for character conversion of hex opcodes
@@ -523,7 +526,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (pnt[2],outfile);
 	fputc (fileheader[i++],outfile);
 	fputc (fileheader[i++],outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
 	} else {
 		fputc (fileheader[i++],outfile);
@@ -538,15 +541,15 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	/* For some reason TI thinks it's important to put the file size */
 	/* dozens of times, I suppose duplicates add security...*/
 	/* yeah right. */
-	if (calc == TYPE_85P) {
-		temp = size + 8 + strlen (namestring);
+	if (calc == TYPE_85P || calc == TYPE_85S) {
+		temp = size + 8 + name_len;
 	} else {
-		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P)?1:0);
+		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-	if (calc == TYPE_85P) {
-		chksum = fputc((6+strlen(namestring)),outfile);
+	if (calc == TYPE_85P || calc == TYPE_85S) {
+		chksum = fputc(6+name_len,outfile);
 	} else {
 		chksum = fputc(pnt[3],outfile);
 	}
@@ -560,7 +563,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 		} else {
 			chksum += fputc(0x12,outfile);
 		}
-		chksum += fputc(strlen(namestring),outfile);
+		chksum += fputc(name_len,outfile);
 	} else {
 		if (calc != TYPE_8XV)
 			chksum += fputc(6,outfile);
@@ -572,7 +575,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	if (calc < TYPE_85P && calc != TYPE_82P) {
 		if (!((temp=namestring[0])>='A' && temp<='Z')) show_warning ("First character in name must be a letter.");
 	}
-	for(i = 0; i < 8 && namestring[i]; i++) chksum += fputc(namestring[i], outfile);
+	for(i = 0; i < name_len; i++) chksum += fputc(namestring[i], outfile);
 	if (calc != TYPE_85P && calc != TYPE_85S) {
 		for(;i < 8; i++) fputc(0,outfile);
 	}
-- 
2.43.0


From 20104d46236e6f3d75113221d85a08361920537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 36/60] fix: a program file whose data section does not fit its
 16-bit length is always reported

---
 export.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/export.cpp b/export.cpp
index 53891fe..a1ecf44 100644
--- a/export.cpp
+++ b/export.cpp
@@ -464,7 +464,7 @@ int siggen(const unsigned char* hashbuf, unsigned char* sigbuf, int* outf) {
 #endif /* NO_APPSIGN */
 
 void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, const char *prgmname, calc_type calc) {
-	int i, temp, chksum, name_len;
+	int i, temp, chksum, name_len, data_size;
 	unsigned char* pnt;
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
@@ -508,15 +508,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	if (calc==TYPE_86P) {
 		size += 2;
 	}
-	/* size must be smaller than z80 mem */
-	if (size > 24575) {
-		if (size > 65535) {
-			SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_64KB);
-		} else if (!(mode & MODE_EZ80)) {
-			SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_24KB);
-		}
-	}
-	
+	data_size = size;
 	/* Lots of pointless header crap */
 	for (i = 0; i < 4; i++)
 		fputc (fileheader[i], outfile);
@@ -546,6 +538,12 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	} else {
 		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
+	/* size must be smaller than z80 mem, and every length must fit its 16 bits */
+	if (temp > 65535) {
+		SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_64KB);
+	} else if (data_size > 24575 && !(mode & MODE_EZ80)) {
+		SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_24KB);
+	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
 	if (calc == TYPE_85P || calc == TYPE_85S) {
-- 
2.43.0


From 567e55c93d6f9e420d76d128aa60788856f69b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 37/60] fix: the name in a ti-82 program file does not include
 the output directory

---
 export.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/export.cpp b/export.cpp
index a1ecf44..d60de14 100644
--- a/export.cpp
+++ b/export.cpp
@@ -469,25 +469,17 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
 	
+	// Find basename(prgmname)
+	const char *baseName = prgmname + strlen(prgmname);
+	while (baseName > prgmname && baseName[-1] != '/' && baseName[-1] != '\\') {
+		baseName -= 1;
+	}
+
 	if (calc==TYPE_82P) {
 		char name_buf[256];
-		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
+		snprintf(name_buf, sizeof(name_buf), "\xdc%s", baseName);
 		namestring = strdup (name_buf);
 	} else {
-		// Find basename(prgmname)
-		const char *baseName = prgmname + strlen(prgmname) - 1;
-		bool found = false;
-		while (baseName > prgmname) {
-			if (*baseName == '/' || *baseName == '\\') {
-				found = true;
-				break;
-			}
-			baseName -= 1;
-		}
-		if (found) {
-			baseName += 1;
-		}
-
 		// Use the base filename (no directory, if given) as the program name.
 		namestring = strdup(baseName);
 		/* The name must be capital letters and numbers */
-- 
2.43.0


From 026c64721921c2571ab11c8a369b8d01f068990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 38/60] fix: checksum of intel hex page records from page 256
 on

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index d60de14..57ba737 100644
--- a/export.cpp
+++ b/export.cpp
@@ -665,7 +665,7 @@ void intelhex (FILE* outfile, const unsigned char* buffer, int size, unsigned in
 	//We are in binary mode, we must handle carriage return ourselves.
    
 	while (bpnt < size){
-		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + page)) +1));
+		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + (page >> 8) + page)) +1));
 		page++;
 		address = base_address;
 		for (i = 0; bpnt < size && i < 512; i++) {
-- 
2.43.0


From 1cd2371762e1a1c6e26cb8c63886fc0b30c814ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:48 +0000
Subject: [PATCH 39/60] fix: the signature of ti-85 files ends in a zero byte

---
 export.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export.cpp b/export.cpp
index 57ba737..d812c22 100644
--- a/export.cpp
+++ b/export.cpp
@@ -512,6 +512,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (fileheader[i++],outfile);
 	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
+		i++;
 	} else {
 		fputc (fileheader[i++],outfile);
 	}    
-- 
2.43.0


From 2752bc7698909565e92583afd388a21935598e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:44 +0000
Subject: [PATCH 40/60] fix: read files of fewer than three bytes, and close
 them

---
 utils.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 08de5e4..e745423 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -713,10 +713,7 @@ char *get_file_contents (const char *filename) {
 	bool matched = true;
 	for (unsigned i = 0; matched && i < sizeof(utf8_endian_mark); i++) {
 		int c = fgetc(file);
-		if (c == EOF) {
-			return NULL;
-		}
-		matched &= (unsigned char)c == utf8_endian_mark[i];
+		matched &= c == utf8_endian_mark[i];
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-- 
2.43.0


From 113c010803bf640b731c65459f8558293d5dad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:06 +0000
Subject: [PATCH 41/60] fix: close the file .echo writes to on every path

---
 directive.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 2219d66..84899cb 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -284,6 +284,7 @@ addinstr_fail:
 				set_console_attributes (COLOR_GREEN);
 				ptr = parse_emit_string (ptr, ES_ECHO, echo_target);
 				restore_console_attributes(orig_attributes);
+				fclose (echo_target);
 			} else {
 				char expr[256];
 				read_expr (&ptr, expr, "");
@@ -786,15 +787,7 @@ echo_error:
 		SetLastSPASMError(SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
 	}
 
-	if (type == ES_ECHO && level == 1) {
-		if (echo_target == stdout) putchar ('\n');
-		else {
-			if (echo_target != NULL)
-			{
-				fclose ((FILE *) echo_target);
-			}
-		}
-	}
+	if (type == ES_ECHO && level == 1 && echo_target == stdout) putchar ('\n');
 	
 	level--;
 	return (char *) ptr;
-- 
2.43.0


From 3372658426c7c0d6f8c519e408c065392b2897ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:28 +0000
Subject: [PATCH 42/60] fix: report output that could not be written

---
 directive.cpp | 4 +++-
 export.cpp    | 4 +++-
 main.cpp      | 5 ++++-
 storage.cpp   | 4 +++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 84899cb..4f9ae7a 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -284,7 +284,9 @@ addinstr_fail:
 				set_console_attributes (COLOR_GREEN);
 				ptr = parse_emit_string (ptr, ES_ECHO, echo_target);
 				restore_console_attributes(orig_attributes);
-				fclose (echo_target);
+				bool write_failed = ferror (echo_target) != 0;
+				if (fclose (echo_target) != 0 || write_failed)
+					SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 			} else {
 				char expr[256];
 				read_expr (&ptr, expr, "");
diff --git a/export.cpp b/export.cpp
index d812c22..6c97bd3 100644
--- a/export.cpp
+++ b/export.cpp
@@ -193,7 +193,9 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 		break;
 	}
 
-	fclose (outfile);
+	bool write_failed = ferror (outfile) != 0;
+	if (fclose (outfile) != 0 || write_failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, output_filename);
 	free(curr_input_file);
 	curr_input_file = NULL;
 }
diff --git a/main.cpp b/main.cpp
index ff011ce..fe1b6db 100644
--- a/main.cpp
+++ b/main.cpp
@@ -179,7 +179,10 @@ int run_assembly()
 				return EXIT_FATAL_ERROR;
 			}
 
-			fclose (file);
+			if (fclose (file) != 0) {
+				puts ("Error writing to listing file");
+				return EXIT_FATAL_ERROR;
+			}
 			eb_free(listing_buf);
 			listing_buf = NULL;
 		}
diff --git a/storage.cpp b/storage.cpp
index ece6b5f..2c88051 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -75,7 +75,9 @@ void write_labels (char *filename) {
 		node = node->next;
 	}
 
-	fclose (symtable);
+	bool write_failed = ferror (symtable) != 0;
+	if (fclose (symtable) != 0 || write_failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 	
 	list_free (label_list.next, true, NULL);
 	free(hdr_node.name);
-- 
2.43.0


From 47a94312165f3f32b9a20814a256f81de3dc6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:28 +0000
Subject: [PATCH 43/60] fix: report output that exceeds the output buffer

---
 pass_one.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pass_one.cpp b/pass_one.cpp
index 2ec8079..ede7501 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -69,6 +69,11 @@ int write_out (int val) {
 	}
 
 	//if (mode & MODE_NORMAL)
+	if (out_ptr - output_contents >= (int) output_buf_size) {
+		if (!error_occurred)
+			show_fatal_error ("Output exceeds %d bytes", (int) output_buf_size);
+		return val;
+	}
 	*(out_ptr++) = val;
 
 	return val;
-- 
2.43.0


From e9452adf2e52b6d5f72837f3265c553661eee364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:29 +0000
Subject: [PATCH 44/60] fix: .seek out of bounds no longer moves the output
 position

---
 directive.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 4f9ae7a..f4eafbf 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -448,12 +448,17 @@ addinstr_fail:
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
-			if (value > program_counter && (value - program_counter > output_buf_size - (out_ptr - output_contents)))
+			long long position = (out_ptr - output_contents) + ((long long) value - (int) program_counter);
+			if (position > (long long) output_buf_size) {
 				show_fatal_error ("Seek location %d out of bounds", value);
-			else if (value < program_counter && (value - (int) program_counter + (out_ptr - output_contents) < 0))
+				break;
+			}
+			if (position < 0) {
 				show_fatal_error ("Seek value %d too small", value);
-		
-			out_ptr += value - ((int) program_counter);
+				break;
+			}
+
+			out_ptr = output_contents + position;
 			//printf("base: %p; ptr: %p\n", output_contents, out_ptr);
 			program_counter = value;
 			break;
-- 
2.43.0


From 3c8eaf20385d4ac61dd00f4912ef6f3ace4d2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:31 +0000
Subject: [PATCH 45/60] fix: bytes .seek skips are zero instead of
 uninitialised

---
 main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index fe1b6db..e5952ce 100644
--- a/main.cpp
+++ b/main.cpp
@@ -447,7 +447,7 @@ int main (int argc, char **argv)
 	}
 	list_free (command_defines, false, NULL);
 
-	output_contents = (unsigned char *) malloc(output_buf_size);
+	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
 
 	int error = run_assembly();
-- 
2.43.0


From 8a72dd163a762e34df444dde9eff8d8ada2ed22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:09 +0000
Subject: [PATCH 46/60] fix: an .addinstr instruction with more than three
 operands no longer overruns the operand tables

---
 pass_one.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index ede7501..865a53e 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -16,6 +16,7 @@
 #include "directive.h"
 #include "pass_one.h"
 #define MAX_BUFFERS 10
+#define MAX_INSTR_ARGS 3
 static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 #endif
 
@@ -316,7 +317,7 @@ char *handle_opcode_or_macro (char *ptr) {
 
 	//if it was found, then find the right instruction
 	if (curr_opcode && curr_opcode->name) {
-		char *arg_ptrs[3], *arg_end_ptrs[3];
+		char *arg_ptrs[MAX_INSTR_ARGS], *arg_end_ptrs[MAX_INSTR_ARGS];
 		instr *curr_instr = NULL;
 
 		//go to the start of the arguments
@@ -624,6 +625,9 @@ char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode
 				if (*curr_arg == '@' && is_name_char(*curr_arg_file))
 					break;
 
+				if (curr_arg_num == MAX_INSTR_ARGS)
+					break;
+
 				arg_ptrs[curr_arg_num] = curr_arg_file;
 				BOOL test = read_expr (&curr_arg_file, trash_buf, ",");
 				if (*(curr_arg_file - 1) == ',')
@@ -645,7 +649,7 @@ char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode
 		}
 
 		//special case, allow empty string at the end to match ix/iy offset
-		if (*curr_arg == '@') {
+		if (*curr_arg == '@' && curr_arg_num < MAX_INSTR_ARGS) {
 			arg_ptrs[curr_arg_num] = curr_arg_file;
 			arg_end_ptrs[curr_arg_num] = curr_arg_file;
 			curr_arg_num++;
-- 
2.43.0


From cf0e4c5ad0419f525d694057d6f2327b82a6d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:11 +0000
Subject: [PATCH 47/60] fix: report more local labels than the table can hold

---
 storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage.cpp b/storage.cpp
index 2c88051..d31a339 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -513,6 +513,10 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
  * write a new reusable label
  */
 void add_reusable() {
+	if (curr_reusable >= MAX_REUSABLES) {
+		show_fatal_error ("Too many local labels, maximum is %d", MAX_REUSABLES);
+		return;
+	}
 	reusables[curr_reusable++] = program_counter;
 	total_reusables = curr_reusable;
 }
-- 
2.43.0


From 0e4fb30e818bb4c2ee9d3a128cb7da85045f67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:03 +0000
Subject: [PATCH 48/60] fix: getc of a missing file no longer yields an
 uninitialised value

---
 parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.cpp b/parser.cpp
index 63e3a38..64c8173 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -403,6 +403,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 							fclose (temp_file);
 						} else {
 							SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
+							return NULL;
 						}
 
 						if (*expr == ')') expr++;
-- 
2.43.0


From 82cd13a3acd5632aef6c748af06c243705fba35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:45 +0000
Subject: [PATCH 49/60] fix: .addinstr with bytes that are not hexadecimal no
 longer adds an instruction of uninitialised bytes

---
 directive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index f4eafbf..12e0073 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -160,7 +160,7 @@ char *handle_directive (const char *ptr) {
 
 			// Instruction data
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
-			conv_hex (word, word + strlen (word), &result);
+			if (!conv_hex (word, word + strlen (word), &result)) goto addinstr_fail;
 			instr->instr_size = strlen (word) / 2;
 
 			// Sanity check: are we within the upper bound?
@@ -183,7 +183,7 @@ char *handle_directive (const char *ptr) {
 			// End data ...
 			if (read_expr (&ptr, word, " \t")) {
 				int output;
-				conv_hex (word, word + strlen (word), &output);
+				if (!conv_hex (word, word + strlen (word), &output)) goto addinstr_fail;
 				instr->end_data = (unsigned char) output;
 				instr->has_end_data = true;
 			}
-- 
2.43.0


From f27c8d21ff062ea02f16e81048a6f66f6be29723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:47 +0000
Subject: [PATCH 50/60] fix: a truncated bitmap is reported instead of read
 from uninitialised headers

---
 bitmap.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 1bb36e4..c5e4407 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -145,7 +145,8 @@ bool IsFileBitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1)
+		return false;
 
 	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M')
 	{
@@ -350,9 +351,11 @@ void handle_bitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
-
-	fread (&bi, sizeof (BITMAPINFOHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1
+		|| fread (&bi, sizeof (BITMAPINFOHEADER), 1, file) != 1) {
+		show_error ("Bitmap file is incomplete");
+		return;
+	}
 
 	if (_DW(bi.biSize) != sizeof (BITMAPINFOHEADER) || _DW(bi.biCompression) != BI_RGB) {
 		show_error ("Bitmap file of this type not supported: size: %u, compression: %u\n", _DW(bi.biSize), _DW(bi.biCompression));
-- 
2.43.0


From 11a467a0a0d257ab2ca75a31da6b25020c917b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:48 +0000
Subject: [PATCH 51/60] fix: report a bitmap file that ends before its pixels
 do

---
 bitmap.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index c5e4407..1b93ed5 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -176,7 +176,12 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 #define BITS_ACCESS(zr, zc) pBits[((zr) * biScanWidth) + (zc)]
 	//BYTE (*pBits)[biScanWidth] = malloc(biScanWidth * (r->bottom - r->top));
 	BYTE *pBits = (BYTE *) malloc(biScanWidth * (r->bottom - r->top));
-	fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file);
+	if (biScanWidth * (r->bottom - r->top) > 0
+		&& fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file) != 1) {
+		show_error ("Bitmap file is incomplete");
+		free (pBits);
+		return;
+	}
 
 	// Create the mask buffer
 	const DWORD biOutputRowSize = ((max(r->right - r->left, min_w) + 7) / 8) * 8;
-- 
2.43.0


From b8bae2cc71dd9ccd558fa2173ac57e5cec9b9f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:34 +0000
Subject: [PATCH 52/60] fix: refuse -D without a name

---
 main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.cpp b/main.cpp
index e5952ce..f05b95e 100644
--- a/main.cpp
+++ b/main.cpp
@@ -440,6 +440,10 @@ int main (int argc, char **argv)
 		read_expr (&ptr, name, "=");
 
 		define = add_define (strdup (name), NULL);
+		if (define == NULL) {
+			puts ("No name given for -D");
+			return EXIT_FATAL_ERROR;
+		}
 		if (*ptr != '\0' && *skip_whitespace (++ptr) != '\0')
 			define->contents = strdup (ptr);
 		else
-- 
2.43.0


From 68d1fcfd4ffd1b13bfd8a50dae83aca9328d8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 53/60] fix: do not use the contents of a define that has none

---
 bitmap.cpp    | 4 ++--
 directive.cpp | 2 +-
 parser.cpp    | 2 +-
 utils.cpp     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 1b93ed5..e1b75d6 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -74,7 +74,7 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 	if (define_with_value("__BM_HDR", 1)) {
 		char *hdr, *p;
 		define_t *def_hdr_fmt = search_defines("__BM_HDR_FMT");
-		if (def_hdr_fmt == NULL)
+		if (def_hdr_fmt == NULL || def_hdr_fmt->contents == NULL)
 			return;
 		
 		hdr = strdup(def_hdr_fmt->contents);
@@ -388,7 +388,7 @@ void handle_bitmap(FILE *file)
 		suffix = base_name + strlen(base_name);
 	}
 
-	if (img_map == NULL || parse_f("__BM_MAP") == 0) {
+	if (img_map == NULL || img_map->contents == NULL || parse_f("__BM_MAP") == 0) {
 		int width = _ZL(bi.biWidth);
 		int height = _ZL(bi.biHeight);
 
diff --git a/directive.cpp b/directive.cpp
index 12e0073..0a860d9 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -261,7 +261,7 @@ addinstr_fail:
 				read_expr (&ptr, filename, " \t");
 
 				// Is the filename given a macro?
-				if ((define = search_defines (filename)))
+				if ((define = search_defines (filename)) && define->contents != NULL)
 					strncpy (filename, skip_whitespace(define->contents), sizeof (filename));
 					
 				reduce_string(filename);
diff --git a/parser.cpp b/parser.cpp
index 64c8173..c686332 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -388,7 +388,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 						read_expr(&expr, filename, ",");
 
 						// Is the filename given a macro?
-						if ((define = search_defines (filename)))
+						if ((define = search_defines (filename)) && define->contents != NULL)
 						{
 							strncpy (filename, define->contents, sizeof (filename));
 						}
diff --git a/utils.cpp b/utils.cpp
index e745423..4132420 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -744,7 +744,7 @@ char *get_file_contents (const char *filename) {
  */
 bool define_with_value (const char *name, const int value) {
 	define_t *define = search_defines (name);
-	if (define == NULL) return false;
+	if (define == NULL || define->contents == NULL) return false;
 	
 	return (parse_f (define->contents) == value);
 }
-- 
2.43.0


From 2dff4158ff8a9cbb4369215e518da5354e86b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:38 +0000
Subject: [PATCH 54/60] fix: do not set an option whose name is taken by a
 label

---
 directive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 0a860d9..feba54c 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -432,7 +432,8 @@ addinstr_fail:
 				strcat (strcpy (define_name, "__"), name);
 
 				define = add_define (define_name, NULL);
-				set_define (define, expr, -1, false);
+				if (define != NULL)
+					set_define (define, expr, -1, false);
 				free(expr);
 			}
 			break;
-- 
2.43.0


From a056f0c681e1ec5934edb47423727f7d566bebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:40 +0000
Subject: [PATCH 55/60] fix: stop at a failed preprocessor command in a macro
 used as a function

---
 parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index c686332..fb8f375 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -199,7 +199,7 @@ char *parse_define (define_t *define)
 			break;
 		}
 
-		curr_line = next_code_line(next_line);
+		curr_line = next_line ? next_code_line(next_line) : NULL;
 		line_num++;
 	}
 
-- 
2.43.0


From 351e5e31180b5489c0aa004489ce2d7d41992952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:42 +0000
Subject: [PATCH 56/60] fix: an image map without columns or rows, or with more
 than there are pixels, divided by zero or never ended

---
 bitmap.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index e1b75d6..50e8ade 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -435,14 +435,23 @@ void handle_bitmap(FILE *file)
 
 		if (padding == -1) padding = 0;
 
-		if (width == 0 && height == 0) {
+		if (width < 0 || height < 0 || (width == 0 && height == 0)) {
 			show_error("At least either of width or height must be given for an image map");
 			goto map_done;
 		}
 
+		// the one not given is a single row or column
+		if (width == 0) width = 1;
+		if (height == 0) height = 1;
+
 		width 	= (_ZL(bi.biWidth) - (width * 2 * padding)) / width;
 		height 	= (_ZL(bi.biHeight) - (height * 2 * padding)) / height;
 
+		if (width <= 0 || height <= 0 || width + 2*padding <= 0 || height + 2*padding <= 0) {
+			show_error("Image map does not fit the bitmap");
+			goto map_done;
+		}
+
 		if (base_name) {
 			strcpy(suffix, "_WIDTH");
 			add_label(strdup(base_name), width);
-- 
2.43.0


From 73f7c8e2f4b7d20874aca1921b9cd70ba7583d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:43 +0000
Subject: [PATCH 57/60] fix: list_remove looked behind the end of the list
 before testing for it

---
 list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.cpp b/list.cpp
index cadf1df..1347e23 100644
--- a/list.cpp
+++ b/list.cpp
@@ -75,7 +75,7 @@ EXPORT list_t *list_remove (list_t *first_node, list_t *remove_node) {
 
 	// otherwise, find the node before the node to remove
 	curr_node = first_node;
-	while (curr_node->next != remove_node && curr_node != NULL)
+	while (curr_node != NULL && curr_node->next != remove_node)
 		curr_node = curr_node->next;
 
 		// then move around pointers
-- 
2.43.0


From a7cef82fcd1915232f5e58baecc7b20dd8a1948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:21 +0000
Subject: [PATCH 58/60] fix: terminate the file name of getc() when it comes
 from a define of 256 characters or more

---
 parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index fb8f375..1e713bd 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -390,7 +390,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 						// Is the filename given a macro?
 						if ((define = search_defines (filename)) && define->contents != NULL)
 						{
-							strncpy (filename, define->contents, sizeof (filename));
+							snprintf (filename, sizeof (filename), "%s", define->contents);
 						}
 
 						read_expr (&expr, parse_buf, ",");
-- 
2.43.0


From 90a3bb4778823e2850cda25e8903da18adcaa513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:23 +0000
Subject: [PATCH 59/60] fix: keep the file name of .echo > within its buffers

---
 directive.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index feba54c..07289c9 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -262,16 +262,14 @@ addinstr_fail:
 
 				// Is the filename given a macro?
 				if ((define = search_defines (filename)) && define->contents != NULL)
-					strncpy (filename, skip_whitespace(define->contents), sizeof (filename));
+					snprintf (filename, sizeof (filename), "%s", skip_whitespace(define->contents));
 					
 				reduce_string(filename);
 
 				if (is_abs_path(filename)) {
-					strncpy(temp_filename, skip_whitespace (filename), sizeof (temp_filename));
+					snprintf(temp_filename, sizeof (temp_filename), "%s", skip_whitespace (filename));
 				} else {
-					strncpy(temp_filename, temp_path, sizeof (temp_filename));
-					strncat(temp_filename, "/", sizeof (temp_filename) - 1);
-					strncat(temp_filename, skip_whitespace (filename), sizeof (temp_filename) - 1);
+					snprintf(temp_filename, sizeof (temp_filename), "%s/%s", temp_path, skip_whitespace (filename));
 				}
 				echo_target = fopen (fix_filename (temp_filename), target_format);
 				if (echo_target == NULL) {
-- 
2.43.0


From 67e1a204da21ed526dee24919f23b3e41e95d4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:39 +0000
Subject: [PATCH 60/60] fix: room for large line numbers and addresses in the
 listing's line prefix

---
 pass_one.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 865a53e..1c98333 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -89,7 +89,7 @@ int write_out (int val) {
  */
 
 void do_listing_for_line (char *ptr) {
-	char *curr_line, text[32];
+	char *curr_line, text[48];
 
 	//make sure empty bytes are filled
 	while (listing_width < 4) {
-- 
2.43.0

