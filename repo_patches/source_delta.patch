From f22fe03f3db63b0908e5940dbce4d5aa5392a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 01/59] fix: copying a StackStack keeps the order of its stacks

---
 src/StackStack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c0b3824..0f1813f 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -27,7 +27,7 @@ StackStack::StackStack(const StackStack& orig) :
 	stack()
 {
 	for(size_t i = 0; i < orig.size(); ++i){
-		stack.push_back(new Stack(orig.at(i)));
+		stack.push_back(new Stack(*orig.stack[i]));
 	}
 }
 
-- 
2.43.0


From 2c0edc184ac72875b9d942e57d6adae05d873c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 02/59] fix: dividing the smallest cell by -1 no longer traps

---
 src/Unefunge93Strategy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 8da81ed..4956e22 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -121,7 +121,7 @@ FungeError Unefunge93Strategy::instructionNot(){
 FungeError Unefunge93Strategy::instructionRemainder(){
 	stack_t a = stack.top().pop();
 	stack_t b = stack.top().pop();
-	if(a == 0){
+	if(a == 0 || a == -1){
 		stack.top().push(0);
 	}else{
 		stack.top().push(b%a);
@@ -155,6 +155,8 @@ FungeError Unefunge93Strategy::instructionDivide(){
 	stack_t b = stack.top().pop();
 	if(a == 0){
 		stack.top().push(0);
+	}else if(a == -1){
+		stack.top().push(-b);
 	}else{
 		stack.top().push(b/a);
 	}
-- 
2.43.0


From ea9e6ca636f751616c9de524b50c2877ad9ba39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 03/59] fix: the Befunge-93 torus is 80x25

---
 src/InstructionPointer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 892c58d..dd2c7af 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -55,12 +55,12 @@ void InstructionPointer::next(){
 		pos += delta;
 		const Field& field = runner.getField();
 		if(runner.getUniverse().topology() == TOPO_TORUS){
-			if(pos.get(0) > 80){
+			if(pos.get(0) > 79){
 				pos.set(0, 0);
 			}else if(pos.get(0) < 0){
 				pos.set(0, 79);
 			}
-			if(pos.get(1) > 25){
+			if(pos.get(1) > 24){
 				pos.set(1, 0);
 			}else if(pos.get(1) < 0){
 				pos.set(1, 24);
-- 
2.43.0


From eef3be98a806baa18979a9885decc0152bce8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 04/59] fix: field bounds after an erase, and in dimensions a
 position leaves out

---
 src/Field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c29e6ca..954b06d 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -258,10 +258,10 @@ void Field::put(const Vector& p, inst_t v){
 		if(find != field.end()){
 			field.erase(find);
 		}
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] == p[i]){
 				// scan for new max
-				dim_t max = std::numeric_limits<dim_t>::min() ;
+				dim_t max = field.empty() ? 0 : std::numeric_limits<dim_t>::min();
 				for(auto s = field.cbegin(); s != field.cend(); ++s){
 					if(s->first[i] > max){
 						max = s->first[i];
@@ -271,7 +271,7 @@ void Field::put(const Vector& p, inst_t v){
 			}
 			if(mins[i] == p[i]){
 				// scan for new min
-				dim_t min = std::numeric_limits<dim_t>::max();
+				dim_t min = field.empty() ? 0 : std::numeric_limits<dim_t>::max();
 				for(auto s = field.cbegin(); s != field.cend(); ++s){
 					if(s->first[i] < min){
 						min = s->first[i];
@@ -281,7 +281,7 @@ void Field::put(const Vector& p, inst_t v){
 			}
 		}
 	}else{
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] < p[i]){
 				maxs[i] = p[i];
 			}
-- 
2.43.0


From 375995bfbe03b14f04d883397dda98d2c488a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 05/59] fix: ' and s keep the whole cell

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c1089c7..955e135 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -296,13 +296,13 @@ FungeError Unefunge98Strategy::instructionExecute(){
 
 FungeError Unefunge98Strategy::instructionFetch(){
 	ip.next();
-	stack.top().push((int)ip.get());
+	stack.top().push(ip.get());
 	return ERROR_NONE;
 }
 
 FungeError Unefunge98Strategy::instructionStore(){
 	ip.next();
-	ip.put((char)(int)stack.top().pop());
+	ip.put(stack.top().pop());
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 451a2194081df1aabe85ae77f200f98a7fb026e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 06/59] fix: strings test whole cells for white space

---
 src/FungeStateString.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/FungeStateString.cpp b/src/FungeStateString.cpp
index 78cb7c0..4233276 100644
--- a/src/FungeStateString.cpp
+++ b/src/FungeStateString.cpp
@@ -18,6 +18,10 @@ FungeStateString::FungeStateString(FungeRunner& r) :
 	
 }
 
+static bool isSpace(inst_t i){
+	return i == ' ' || (i >= '\t' && i <= '\r');
+}
+
 void FungeStateString::escape(inst_t i){
 	stack_t code = i;
 	switch(i){
@@ -65,7 +69,7 @@ FungeError FungeStateString::execute(inst_t i){
 				runner.push(static_cast<stack_t>(i));
 				break;
 			case STRING_SGML:
-				if(!isspace(i) || !isspace(previous)){
+				if(!isSpace(i) || !isSpace(previous)){
 					runner.push(static_cast<stack_t>(i));
 					previous = i;
 				}else{
-- 
2.43.0


From 9c290aad5c6da3e7b6f42fed15a0e5baebd2149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 07/59] fix: k takes the whole cell as its instruction

---
 src/Unefunge98Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 955e135..b9da3ea 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	char c = field.get(ip.getPos());
+	inst_t c = field.get(ip.getPos());
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
-- 
2.43.0


From e69d170237ac6680cc645efc183dc3d2a7b3f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 08/59] fix: y takes n as a whole cell and reports a disabled =
 as such

---
 src/Unefunge98Strategy.cpp       | 4 ++--
 src/include/Unefunge98Strategy.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index b9da3ea..a0d89ae 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -353,7 +353,7 @@ FungeError Unefunge98Strategy::instructionUnload(){
 	return ret;
 }
 
-void Unefunge98Strategy::pushSysInfo(int num){
+void Unefunge98Strategy::pushSysInfo(stack_t num){
 	const size_t s = runner.getUniverse().dimensions();
 	const stack_t tsize = stack.top().size();
 	int pushes = 0;
@@ -411,7 +411,7 @@ void Unefunge98Strategy::pushSysInfo(int num){
 	// Path separator
 	pushes += stack.top().push('/');
 	// Operating Paradigm
-	pushes += stack.top().push(OP_SYSTEM);
+	pushes += stack.top().push(runner.getUniverse().allowExecute() ? OP_SYSTEM : OP_UNAVAILABLE);
 	// Version Number
 	pushes += stack.top().push(FUNGE_VERSION);
 	// Handprint
diff --git a/src/include/Unefunge98Strategy.h b/src/include/Unefunge98Strategy.h
index 8c16f6f..d82e647 100644
--- a/src/include/Unefunge98Strategy.h
+++ b/src/include/Unefunge98Strategy.h
@@ -49,7 +49,7 @@ class Unefunge98Strategy : public FungeStrategy {
 		FungeError instructionLoad();
 		FungeError instructionUnload();
 
-		void pushSysInfo(int num);
+		void pushSysInfo(stack_t num);
 		FingerprintStrategy finger;
 };
 
-- 
2.43.0


From 8e7347ed637b2326c66544a18b4bc154c9263e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 09/59] fix: o writes exactly the area asked for, also in one
 dimension or when it is empty

---
 src/Field.cpp | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 954b06d..19188fc 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -188,30 +188,26 @@ void Field::parseFungeLib(std::istream& file){
 }
 
 void Field::dump(const Vector& start, const Vector& delta, std::ostream& file, bool binary) const {
-	Vector v(start);
-	Vector end(start+delta);
+	// A one dimensional field has a single row
+	const dim_t height = (size() == 1) ? 1 : delta[1];
 	std::vector<char> buffer;
-	while(v < end){
-		inst_t i = get(v);
-		buffer.push_back(static_cast<char>(i));
-		if(i != ' ' || binary){
-			for(char c : buffer){
-				file << c;
-			}
-			buffer.clear();
-		}
-		v.set(0, v[0]+1); // ++x
-		if(v[0] >= end[0]){
-			file << '\n';
-			if(!binary){
+	Vector v(start);
+	for(dim_t y = 0; y < height; ++y){
+		for(dim_t x = 0; x < delta[0]; ++x){
+			inst_t i = get(v);
+			buffer.push_back(static_cast<char>(i));
+			if(i != ' ' || binary){
+				for(char c : buffer){
+					file << c;
+				}
 				buffer.clear();
 			}
-			v.set(1, v[1]+1);   // ++y
-			v.set(0, start[0]); // x = 0
-		}
-		if(v[1] >= end[1]){
-			break;
+			v.set(0, v[0]+1); // ++x
 		}
+		file << '\n';
+		buffer.clear();
+		v.set(1, v[1]+1);   // ++y
+		v.set(0, start[0]); // x = 0
 	}
 }
 
-- 
2.43.0


From 7541387d38e1b03e35126f262c5f7ed41e36c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 10/59] fix: i leaves a position that o can use under a storage
 offset

---
 src/Unefunge98Strategy.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index a0d89ae..1c68069 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -243,10 +243,9 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		std::string filepath = popString(stack.top());
 		stack_t flags = stack.top().pop();
 		Vector va = popVector(runner);
-		va += ip.getStorage();
 		std::ifstream file(filepath);
 		if(!file.fail()){
-			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
+			Vector vb = field.parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
-- 
2.43.0


From 3611e93dbbc14ce767b02f1b23fcbaf1a9b42bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 11/59] fix: keep the dimensions of .fl and .beq files, and
 their bytes above 127

---
 src/Field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 19188fc..c791034 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -32,7 +32,7 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 			parseFungeLib(file);
 			break;
 	}
-	if(dim == 0){
+	if(dimensions == 0){
 		dimensions = maxs.size();
 	}
 }
@@ -117,7 +117,7 @@ void Field::parseBeq(std::istream& file){
 		size_t dim = 0;
 		for(auto c : ctrl){
 			auto cmd = splitString(c, ' ');
-			if(cmd[0] == "Version"){
+			if(cmd.size() < 2 || cmd[0] == "Version"){
 				// ok
 			}else if(cmd[0] == "Dimensions"){
 				if(dims == 0){
@@ -146,7 +146,7 @@ void Field::parseBeq(std::istream& file){
 			Vector pos(origin);
 			for(size_t i = 0; i < lines; ++i){
 				std::getline(file, line);
-				for(auto c : line){
+				for(unsigned char c : line){
 					put(pos, c);
 					pos.set(0, pos.get(0)+1); // ++x
 				}
@@ -178,7 +178,7 @@ void Field::parseFungeLib(std::istream& file){
 			}
 		}
 
-		for(char i : line){
+		for(unsigned char i : line){
 			put(pos, i);
 			pos += Vector{1};
 		}
-- 
2.43.0


From 2dde46b10e31003776c6df64d7874b2b649c7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 12/59] fix: . prints the whole cell, & takes a number that
 ends with the input

---
 src/Unefunge93Strategy.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 4956e22..93be424 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -210,11 +210,10 @@ FungeError Unefunge93Strategy::instructionNumIn(){
 	while(c >= '0' && c <= '9'){
 		num = (num*10) + (c-'0');
 		c = getchar();
-		if(c == EOF){
-			return ERROR_UNSPEC;
-		}
 	}
-	ungetc(c, stdin);
+	if(c != EOF){
+		ungetc(c, stdin);
+	}
 	stack.top().push(num);
 	return ERROR_NONE;
 }
@@ -252,7 +251,7 @@ FungeError Unefunge93Strategy::instructionCharOut(){
 
 FungeError Unefunge93Strategy::instructionNumOut(){
 	stack_t x = stack.top().pop();
-	std::cout << static_cast<int>(x) << ' ';
+	std::cout << x << ' ';
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 0f43bd153ff20fb24f9078615ea6966ad0cbfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 13/59] fix: DIRF respects -fno-filesystem and reflects on
 failure

---
 src/fingerprint/FingerprintDIRF.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 85c99dd..4930c13 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintDIRF.h"
 #include "FungeUtilities.h"
+#include "FungeUniverse.h"
 #include<filesystem>
 
 namespace Funge {
@@ -16,24 +17,29 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	if(!runner.getUniverse().allowFilesystem()){
+		return ERROR_NOTAVAIL;
+	}
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::current_path(dir);
-			}else{
+			std::error_code err;
+			std::filesystem::current_path(dir, err);
+			if(err){
 				ret = ERROR_UNSPEC;
 			}
 		} break;
 		case 'M':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			std::filesystem::create_directory(dir);
+			std::error_code err;
+			if(!std::filesystem::create_directory(dir, err)){
+				ret = ERROR_UNSPEC;
+			}
 		} break;
 		case 'R':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::remove(dir);
-			}else{
+			std::error_code err;
+			if(!std::filesystem::is_directory(dir, err) || !std::filesystem::remove(dir, err)){
 				ret = ERROR_UNSPEC;
 			}
 		} break;
-- 
2.43.0


From aa316a46ae4364ae860a0e846d3e3545477259f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 14/59] fix: PERL passes its code to perl without shell
 expansion

---
 src/fingerprint/FingerprintPERL.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fingerprint/FingerprintPERL.cpp b/src/fingerprint/FingerprintPERL.cpp
index 77eda37..ec5f7d1 100644
--- a/src/fingerprint/FingerprintPERL.cpp
+++ b/src/fingerprint/FingerprintPERL.cpp
@@ -7,7 +7,6 @@
 #include "FingerprintPERL.h"
 #include "FungeUtilities.h"
 #include "FungeUniverse.h"
-#include <iomanip>
 
 namespace Funge {
 
@@ -45,9 +44,16 @@ FungeError FingerprintPERL::execute(inst_t cmd){
 
 int FingerprintPERL::perl(const std::string& code){
 	std::string cmd = std::string("exit(eval{") + code + std::string("})");
-	std::stringstream sq;
-	sq << std::quoted(cmd);
-	cmd = std::string("perl -e ") + sq.str();
+	// Quote for the shell, which must not expand anything
+	std::string sq;
+	for(char c : cmd){
+		if(c == '\''){
+			sq += "'\\''";
+		}else{
+			sq += c;
+		}
+	}
+	cmd = std::string("perl -e '") + sq + "'";
 	return system(cmd.c_str()) >> 8;
 }
 
-- 
2.43.0


From 23b240470961ce51db34af609a7caf185dbc28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 15/59] fix: BITW shifts by more than the cell size shift every
 bit out

---
 src/fingerprint/FingerprintBITW.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintBITW.cpp b/src/fingerprint/FingerprintBITW.cpp
index b8b99d7..6a39e0d 100644
--- a/src/fingerprint/FingerprintBITW.cpp
+++ b/src/fingerprint/FingerprintBITW.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintBITW.h"
+#include <limits>
 
 namespace Funge {
 
@@ -12,6 +13,17 @@ FingerprintBITW::FingerprintBITW(FungeRunner& r) :
 	Fingerprint(r, {'A', 'L', 'N', 'O', 'R', 'X'})
 {}
 
+/**
+ * Shift left by n bits, or right if n is negative.
+ */
+static stack_t shift(stack_t x, stack_t n){
+	if(n >= 0){
+		return (n < 64) ? (x << n) : 0;
+	}else{
+		return (n > -64) ? (x >> -n) : (x >> 63);
+	}
+}
+
 FungeError FingerprintBITW::execute(inst_t cmd){
 	switch(cmd){
 		case 'A':{
@@ -22,7 +34,7 @@ FungeError FingerprintBITW::execute(inst_t cmd){
 		case 'L':{
 			stack_t a = stack.top().pop();
 			stack_t b = stack.top().pop();
-			stack.top().push(b << a);
+			stack.top().push(shift(b, a));
 		} break;
 		case 'N':{
 			stack_t a = stack.top().pop();
@@ -36,7 +48,7 @@ FungeError FingerprintBITW::execute(inst_t cmd){
 		case 'R':{
 			stack_t a = stack.top().pop();
 			stack_t b = stack.top().pop();
-			stack.top().push(b >> a);
+			stack.top().push(shift(b, (a == std::numeric_limits<stack_t>::min()) ? std::numeric_limits<stack_t>::max() : -a));
 		} break;
 		case 'X':{
 			stack_t a = stack.top().pop();
-- 
2.43.0


From d9a72e50d36ddb4b5102531d7646c39c27c585b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 16/59] fix: CPLI D by zero gives zero, as / does

---
 src/fingerprint/FingerprintCPLI.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintCPLI.cpp b/src/fingerprint/FingerprintCPLI.cpp
index 4d81a49..a4c607c 100644
--- a/src/fingerprint/FingerprintCPLI.cpp
+++ b/src/fingerprint/FingerprintCPLI.cpp
@@ -22,9 +22,14 @@ FungeError FingerprintCPLI::execute(inst_t cmd){
 		case 'D':{
 			cpli_t b = popComplex(stack.top());
 			cpli_t a = popComplex(stack.top());
-			cplf_t da = toDouble(a);
-			cplf_t db = toDouble(b);
-			pushComplex(stack.top(), toInt(da / db));
+			if(b == cpli_t(0, 0)){
+				// Same as division of integers
+				pushComplex(stack.top(), b);
+			}else{
+				cplf_t da = toDouble(a);
+				cplf_t db = toDouble(b);
+				pushComplex(stack.top(), toInt(da / db));
+			}
 		} break;
 		case 'M':{
 			cpli_t b = popComplex(stack.top());
-- 
2.43.0


From 3dadda842950c043db7572405172623812da3574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 17/59] fix: FIXP D takes the whole cell and negative limits, Q
 of a negative reflects

---
 src/fingerprint/FingerprintFIXP.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintFIXP.cpp b/src/fingerprint/FingerprintFIXP.cpp
index e26854c..00beb07 100644
--- a/src/fingerprint/FingerprintFIXP.cpp
+++ b/src/fingerprint/FingerprintFIXP.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintFIXP.h"
+#include <algorithm>
 #include <cmath>
 
 namespace Funge {
@@ -63,6 +64,9 @@ FungeError FingerprintFIXP::execute(inst_t cmd){
 		} break;
 		case 'Q':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			n = std::sqrt(n);
 			stack.top().push(n);
 		} break;
@@ -126,7 +130,7 @@ double FingerprintFIXP::radToDeg(double deg){
 }
 
 stack_t FingerprintFIXP::random(stack_t max){
-	std::uniform_int_distribution<> dis(0, max);
+	std::uniform_int_distribution<stack_t> dis(std::min<stack_t>(0, max), std::max<stack_t>(0, max));
 	return dis(gen);
 }
 
-- 
2.43.0


From f086da6d0a31f7590ee369608bca2963d16790fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 18/59] fix: NFUN X, Y and Z count the dimension they move in
 and reflect on negative ones

---
 src/fingerprint/FingerprintNFUN.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index fcd6428..8134535 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -75,6 +75,9 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'X':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			if(stack.top().pop() == 0){
 				v.set(n, 1);
@@ -82,21 +85,27 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 				v.set(n, -1);
 			}
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Y':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, -1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Z':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, 1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		default:
 			return ERROR_UNIMP;
-- 
2.43.0


From d9d18eb81783ca9919d0e70278e38441c1fa4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 19/59] fix: loading DBUG installs its instructions

---
 src/fingerprint/FingerprintDBUG.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index 5fb2421..a3ef965 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -17,6 +17,7 @@ FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
 
 void FingerprintDBUG::activate(){
 	dbg = &runner.getUniverse().getDebugger();
+	Fingerprint::activate();
 }
 
 FungeError FingerprintDBUG::execute(inst_t cmd){
-- 
2.43.0


From 9a9a51d5e6ffab5240c78e3da2d8572843555853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 20/59] fix: strings on the stack keep bytes above 127

---
 src/util/FungeUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/FungeUtilities.cpp b/src/util/FungeUtilities.cpp
index 9b14794..1153c5c 100644
--- a/src/util/FungeUtilities.cpp
+++ b/src/util/FungeUtilities.cpp
@@ -49,7 +49,7 @@ size_t pushString(Stack& stack, const std::string& str){
 	size_t s = str.length();
 	stack.push(0);
 	for(size_t c = s; c > 0; --c){
-		stack.push(str[c-1]);
+		stack.push(static_cast<unsigned char>(str[c-1]));
 	}
 	return s+1;
 }
-- 
2.43.0


From 51b7e92d1e01a6ede95f4052089d41efddb33ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 21/59] fix: STRN G of an unterminated string reflects, V takes
 any string, P keeps bytes above 127

---
 src/fingerprint/FingerprintSTRN.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 22d6042..69fd1d7 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintSTRN.h"
 #include "FungeUtilities.h"
+#include <cstdlib>
 
 namespace Funge {
 
@@ -45,6 +46,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			va += ip.getStorage();
 			std::string str;
 			for( ; field.get(va); va += Vector{1}){
+				if(va.get(0) > field.max(0)){
+					// Nothing but spaces from here on, the string never ends.
+					return ERROR_UNSPEC;
+				}
 				str += field.get(va);
 			}
 			pushString(stack.top(), str);
@@ -87,7 +92,7 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			va += ip.getStorage();
 			std::string str = popString(stack.top());
 			for(char c : str){
-				field.put(va, c);
+				field.put(va, static_cast<unsigned char>(c));
 				va += Vector{1};
 			}
 			field.put(va, 0);
@@ -110,7 +115,7 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 		} break;
 		case 'V':{
 			std::string str = popString(stack.top());
-			stack.top().push(std::stoi(str));
+			stack.top().push(std::strtoll(str.c_str(), nullptr, 10));
 		} break;
 		default:
 			ret = ERROR_UNIMP;
-- 
2.43.0


From 205f1489b13bd616751fa27a75b29049378fd617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 22/59] fix: BASE prints negative numbers and reads every base
 it prints

---
 src/fingerprint/FingerprintBASE.cpp       | 44 +++++++++++++++--------
 src/fingerprint/include/FingerprintBASE.h | 10 +++---
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index f6f5b4a..4b0c4a9 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -49,7 +49,7 @@ const char FingerprintBASE::base85[85] = {
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm',
 	'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
 	'!', '#', '$', '%', '&', '(', ')', '*', '+', '-', ';', '<',
-	'=', '>', '?', '@', '^', '_', '`', '{', '|', '{', '~'
+	'=', '>', '?', '@', '^', '_', '`', '{', '|', '}', '~'
 };
 
 FingerprintBASE::FingerprintBASE(FungeRunner& r) :
@@ -75,12 +75,18 @@ FungeError FingerprintBASE::execute(inst_t cmd){
 		} break;
 		case 'I':{
 			stack_t b = stack.top().pop();
+			if(b < 1){
+				return ERROR_UNSPEC;
+			}
 			stack_t i = readNum(b);
 			stack.top().push(i);
 		} break;
 		case 'N':{
 			stack_t b = stack.top().pop();
 			stack_t a = stack.top().pop();
+			if(b < 1){
+				return ERROR_UNSPEC;
+			}
 			printNum(a, b);
 		} break;
 		case 'O':{
@@ -94,9 +100,14 @@ FungeError FingerprintBASE::execute(inst_t cmd){
 	return ERROR_NONE;
 }
 
-void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
+void FingerprintBASE::printNum(stack_t num, uint64_t base) const{
 	if(base > 1){
-		printBase(num, base, true);
+		uint64_t magnitude = num;
+		if(num < 0){
+			std::cout << '-';
+			magnitude = 0 - magnitude;
+		}
+		printBase(magnitude, base, true);
 	}else{
 		for(stack_t i = 0; i < num; ++i){
 			std::cout << "0";
@@ -105,9 +116,9 @@ void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 	std::cout << " " << std::flush;
 }
 
-void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
-	stack_t digit = num % base;
-	stack_t next = num / base;
+void FingerprintBASE::printBase(uint64_t num, uint64_t base, bool low) const{
+	uint64_t digit = num % base;
+	uint64_t next = num / base;
 	if(next > 0){
 		printBase(next, base, false);
 	}
@@ -126,26 +137,31 @@ void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
 	}
 }
 
-stack_t FingerprintBASE::readNum(unsigned int base) const{
+stack_t FingerprintBASE::readNum(uint64_t base) const{
 	std::string str;
 	std::cin >> str;
 	stack_t num = 0;
 	if(base <= 1){
 		num = str.size();
-	}else if(base <= sizeof(digit_map)){
-		readBase(str, &num, base);
+	}else{
+		auto found = base_map.find(base);
+		if(base <= sizeof(digit_map)){
+			readBase(str, &num, base, digit_map);
+		}else if(found != base_map.end()){
+			readBase(str, &num, base, found->second);
+		}
 	}
 	return num;
 }
 
-bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base) const{
-	char digit = str[0];
+bool FingerprintBASE::readBase(std::string str, stack_t* num, uint64_t base, const char* digits) const{
 	bool found = false;
 	if(base <= 36){
 		std::transform(str.begin(), str.end(), str.begin(), ::toupper);
 	}
-	for(size_t i = 0; i <= base; ++i){
-		if(digit_map[i] == digit){
+	char digit = str[0];
+	for(size_t i = 0; i < base; ++i){
+		if(digits[i] == digit){
 			*num = (*num*base) + i;
 			found = true;
 			break;
@@ -153,7 +169,7 @@ bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base)
 	}
 	if(found && str.size() > 1){
 		str.erase(0, 1);
-		readBase(str, num, base);
+		readBase(str, num, base, digits);
 	}
 	return true;
 }
diff --git a/src/fingerprint/include/FingerprintBASE.h b/src/fingerprint/include/FingerprintBASE.h
index a75c451..3ad0487 100644
--- a/src/fingerprint/include/FingerprintBASE.h
+++ b/src/fingerprint/include/FingerprintBASE.h
@@ -26,12 +26,12 @@ class FingerprintBASE : public Fingerprint {
 		static const char base64[64];
 		static const char base85[85];
 		
-		std::map<unsigned int, const char*> base_map;
+		std::map<uint64_t, const char*> base_map;
 		
-		void printNum(stack_t num, unsigned int base) const;
-		void printBase(stack_t num, unsigned int base, bool low) const;
-		stack_t readNum(unsigned int base) const;
-		bool readBase(std::string str, stack_t* num, unsigned int base) const;
+		void printNum(stack_t num, uint64_t base) const;
+		void printBase(uint64_t num, uint64_t base, bool low) const;
+		stack_t readNum(uint64_t base) const;
+		bool readBase(std::string str, stack_t* num, uint64_t base, const char* digits) const;
 };
 
 }
-- 
2.43.0


From ee141655b7c5bd9bc6cbf15c6e6f1f9a938e9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 23/59] fix: FISH L, R and S on an empty stack

---
 src/fingerprint/FingerprintFISH.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 5816128..1cc900f 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -67,6 +67,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'L':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
@@ -98,6 +101,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'R':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
@@ -110,6 +116,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Reverse Stack
 		case 'S':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
-- 
2.43.0


From 19071b5321fea9bde4cbfd05c99d5ea05f82c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 24/59] fix: BASE base 64 has its digits 0-9

---
 src/fingerprint/FingerprintBASE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 4b0c4a9..c5109bb 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -38,7 +38,8 @@ const char FingerprintBASE::base64[64] = {
 	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L',
 	'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z',
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n',
-	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '+', '/'
+	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
+	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'
 };
 
 // RFC 1924 base85
-- 
2.43.0


From 9a535cbf21f6f96509cfbc880be9fb72cd6c4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 25/59] fix: TOYS H shifts by any number of bits

---
 src/fingerprint/FingerprintTOYS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 29e7e69..10c5e52 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -77,10 +77,10 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'H':{
 			stack_t b = stack.top().pop();
 			stack_t a = stack.top().pop();
-			if(b > 0){
-				a <<= b;
+			if(b >= 0){
+				a = (b < 64) ? (a << b) : 0;
 			}else{
-				a >>= -b;
+				a >>= (b > -64) ? -b : 63;
 			}
 			stack.top().push(a);
 		} break;
-- 
2.43.0


From 6e3f10536181efb50af8065c7a8475b1dc3b8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 26/59] fix: TOYS T checks the dimension before using it

---
 src/fingerprint/FingerprintTOYS.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 10c5e52..c0bc9de 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -161,13 +161,10 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		} break;
 		case 'T':{
 			size_t n = static_cast<size_t>(stack.top().pop());
-			Vector v;
-			if(stack.top().pop() == 0){
-				v.set(n, 1);
-			}else{
-				v.set(n, -1);
-			}
+			dim_t dir = (stack.top().pop() == 0) ? 1 : -1;
 			if(runner.getUniverse().dimensions() > n){
+				Vector v;
+				v.set(n, dir);
 				ip.setDelta(v);
 			}else{
 				ret = ERROR_UNSPEC;
-- 
2.43.0


From bb7ca60ab9ea397bc7800227818aab3f9783f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 27/59] fix: TOYS areas of size zero in the last dimension are
 empty

---
 src/fingerprint/FingerprintTOYS.cpp       | 16 +++++++++++++---
 src/fingerprint/include/FingerprintTOYS.h |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index c0bc9de..e0c75aa 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -93,7 +93,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 				dim_t ymin = field.min(1);
 				dim_t ymax = field.max(1);
 				dim_t x = ip.getPos().get(0);
-				copySpace(Vector({x, ymin}), Vector({1, ymax-ymin+1}), Vector({x, ymin+n}), (n < 0), true);
+				copySpace(Vector({x, ymin}), lineSize(1, ymax-ymin+1), Vector({x, ymin+n}), (n < 0), true);
 			}
 		} break;
 		case 'K':{
@@ -124,7 +124,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 				dim_t xmin = field.min(0);
 				dim_t xmax = field.max(0);
 				dim_t y = ip.getPos().get(1);
-				copySpace(Vector({xmin, y}), Vector({xmax-xmin+1, 1}), Vector({xmin+n, y}), (n < 0), true);
+				copySpace(Vector({xmin, y}), lineSize(xmax-xmin+1, 1), Vector({xmin+n, y}), (n < 0), true);
 			}
 		} break;
 		case 'P':{
@@ -273,8 +273,18 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 	}
 }
 
+Vector FingerprintTOYS::lineSize(dim_t width, dim_t height) const{
+	Vector size({width, height});
+	for(size_t d = 2; d < runner.getUniverse().dimensions(); ++d){
+		size.set(d, 1);
+	}
+	return size;
+}
+
 bool FingerprintTOYS::sizeToRange(Vector& size){
-	for(size_t d = 0; d < size.size(); ++d){
+	// A size of zero in the last dimensions is not stored
+	size_t dims = std::max(size.size(), runner.getUniverse().dimensions());
+	for(size_t d = 0; d < dims; ++d){
 		dim_t s = size.get(d);
 		if(s > 0){
 			size.set(d, s-1);
diff --git a/src/fingerprint/include/FingerprintTOYS.h b/src/fingerprint/include/FingerprintTOYS.h
index f0a31ac..285437c 100644
--- a/src/fingerprint/include/FingerprintTOYS.h
+++ b/src/fingerprint/include/FingerprintTOYS.h
@@ -25,6 +25,7 @@ class FingerprintTOYS : public Fingerprint {
 		
 		void copySpace(const Vector& src, const Vector& sz, const Vector& dest, bool low, bool move);
 		bool sizeToRange(Vector& size);
+		Vector lineSize(dim_t width, dim_t height) const;
 };
 
 }
-- 
2.43.0


From d474b8aeb548a4ef7f1244893ebda596d2b4476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 28/59] fix: SUBR C and R with a negative count reflect instead
 of sizing an array with it

---
 src/fingerprint/FingerprintSUBR.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index c94ee4f..1cec9e2 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintSUBR.h"
 #include "FungeUtilities.h"
+#include <vector>
 
 namespace Funge {
 
@@ -21,8 +22,11 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'C':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector va = popVector(runner);
-			stack_t pops[n];
+			std::vector<stack_t> pops(n);
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
 			}
@@ -50,7 +54,10 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
-			stack_t pops[n];
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
+			std::vector<stack_t> pops(n);
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
 			}
-- 
2.43.0


From 2ce26fb853d33013d15cac30e4f2f40599401f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 29/59] fix: IIPC A of an IP without a parent, or whose parent
 has ended, read an IP that is not there

---
 src/FungeRunner.cpp                 | 8 ++++----
 src/fingerprint/FingerprintIIPC.cpp | 6 +++++-
 src/include/FungeRunner.h           | 5 +++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f5b9743..5e71d70 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -24,7 +24,7 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(new StackStack()),
 	ip(*this),
-	parent(nullptr),
+	parent(),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -42,7 +42,7 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(r.stack),
 	ip(*this),
-	parent(&r),
+	parent(r.id),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -60,7 +60,7 @@ FungeRunner::FungeRunner(const FungeRunner& runner) :
 	universe(runner.universe),
 	stack(new StackStack(*runner.stack)),
 	ip(runner.ip, *this),
-	parent(&runner),
+	parent(runner.id),
 	errorHandler(nullptr),
 	normalState(*this),
 	stringState(*this),
@@ -244,7 +244,7 @@ void FungeRunner::setUniverse(FungeUniverse& other){
 	universe = &other;
 }
 
-const FungeRunner* FungeRunner::getParent(){
+const std::optional<size_t>& FungeRunner::getParent() const{
 	return parent;
 }
 
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index b03310e..5d70716 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -19,7 +19,11 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
 		case 'A':
-			stack.top().push(runner.getParent()->getID());
+			if(runner.getParent()){
+				stack.top().push(*runner.getParent());
+			}else{
+				ret = ERROR_UNSPEC;
+			}
 			break;
 		case 'D':{
 			size_t age = stack.top().age();
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index d71aa65..1661a74 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -13,6 +13,7 @@
 #include "FungeStateString.h"
 #include "FungeConfig.h"
 #include <memory>
+#include <optional>
 
 namespace Funge {
 class FungeUniverse;
@@ -54,7 +55,7 @@ class FungeRunner {
 		void setErrorHandler(std::function<FungeError(FungeError)> func);
 
 		void shareStack(FungeRunner& other);
-		const FungeRunner* getParent();
+		const std::optional<size_t>& getParent() const;
 	
 	private:
 		static size_t count;
@@ -63,7 +64,7 @@ class FungeRunner {
 		FungeUniverse* universe;
 		std::shared_ptr<StackStack> stack;
 		InstructionPointer ip;
-		const FungeRunner* parent;
+		std::optional<size_t> parent;
 		std::function<FungeError(FungeError)> errorHandler;
 		std::vector<FungeStrategy*> strategies;
 		
-- 
2.43.0


From c07cc9fd3c243713d0db0e668ec826884ee9e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 30/59] fix: stacks opened in queue or invert mode did not
 follow it

---
 src/StackStack.cpp       | 7 ++++++-
 src/include/StackStack.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 0f1813f..edf2e8e 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -10,6 +10,7 @@ namespace Funge {
 
 StackStack::StackStack() :
 	select(0),
+	mode(),
 	stack()
 {
 	stack.push_back(new Stack());
@@ -24,6 +25,7 @@ StackStack::~StackStack()
 
 StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
+	mode(),
 	stack()
 {
 	for(size_t i = 0; i < orig.size(); ++i){
@@ -63,12 +65,14 @@ void StackStack::pop(){
 
 void StackStack::push(){
 	stack.push_back(new Stack());
+	stack.back()->setMode(mode);
 }
 
 void StackStack::insert(size_t pos){
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
-	stack.insert(iter, new Stack());
+	iter = stack.insert(iter, new Stack());
+	(*iter)->setMode(mode);
 }
 
 void StackStack::remove(size_t pos){
@@ -82,6 +86,7 @@ size_t StackStack::size() const{
 }
 
 void StackStack::setMode(FungeMode m){
+	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
 	}
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 67f783f..2bd50bd 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -139,6 +139,7 @@ class StackStack {
 		
 	private:
 		size_t select;
+		FungeMode mode;
 		std::vector<Stack*> stack;
 };
 
-- 
2.43.0


From f6d808efaf346e94860dc812598629bf6b221405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 31/59] fix: ><> modulo of the smallest cell by -1 trapped

---
 src/FishStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 5035955..0f706ca 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -238,7 +238,7 @@ FungeError FishStrategy::instructionModu(){
 	if(x == 0){
 		return ERROR_UNSPEC;
 	}
-	push(TOP, y % x);
+	push(TOP, x == -1 ? 0 : y % x);
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 09e874ae7b2a611e74757a3044f294e483d5a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 32/59] fix: ><> { and } of an empty stack accessed an array of
 no elements

---
 src/FishStrategy.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 0f706ca..d624273 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -11,6 +11,7 @@
 #include "FungeUniverse.h"
 #include "FishUtil.h"
 #include "ScopedTermios.h"
+#include <vector>
 
 namespace Funge {
 
@@ -312,9 +313,9 @@ FungeError FishStrategy::instructionLength(){
 }
 
 FungeError FishStrategy::instructionShiftLeft(){
-	check_selected(selected);
+	check_stack(top, 1);
 	stack_t len = stack.top().size();
-	double temp[len];
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
@@ -326,9 +327,9 @@ FungeError FishStrategy::instructionShiftLeft(){
 }
 
 FungeError FishStrategy::instructionShiftRight(){
-	check_selected(selected);
+	check_stack(top, 1);
 	stack_t len = stack.top().size();
-	double temp[len];
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
@@ -342,7 +343,7 @@ FungeError FishStrategy::instructionShiftRight(){
 FungeError FishStrategy::instructionReverse(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
-- 
2.43.0


From 19f68f78a9938b6c5d7da7121cdd29db2405d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 33/59] fix: ><> & never pushed the value of the register back

---
 src/FishStrategy.cpp       | 1 +
 src/include/FishStrategy.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index d624273..b1e444b 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -439,6 +439,7 @@ FungeError FishStrategy::instructionRegister(){
 
 	FungeError ret = ERROR_UNSPEC;
 	if(top.set){
+		push(TOP, top.value);
 		top.value = 0;
 		top.set = false;
 		ret = ERROR_NONE;
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 7654048..3c84ec3 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -93,7 +93,7 @@ class FishStrategy : public FungeStrategy {
 
 		struct reg {
 			bool set;
-			stack_t value;
+			double value;
 		};
 
 		std::stack<reg> regs;
-- 
2.43.0


From d6c5cf7bcf9f5d621dfd586447c1445e4fd4fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 34/59] fix: blocks used stacks that do not exist after FISH D
 selected a lower stack

---
 src/StackStack.cpp         | 5 +++++
 src/Unefunge98Strategy.cpp | 8 ++++----
 src/include/StackStack.h   | 6 ++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index edf2e8e..5ec89da 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -78,6 +78,7 @@ void StackStack::insert(size_t pos){
 void StackStack::remove(size_t pos){
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
+	delete *iter;
 	stack.erase(iter);
 }
 
@@ -85,6 +86,10 @@ size_t StackStack::size() const{
 	return stack.size();
 }
 
+bool StackStack::hasSecond() const{
+	return select+1 < stack.size();
+}
+
 void StackStack::setMode(FungeMode m){
 	mode = m;
 	for(auto s : stack){
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 1c68069..ca4e7ce 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -162,7 +162,7 @@ FungeError Unefunge98Strategy::instructionClear(){
 
 FungeError Unefunge98Strategy::instructionUnder(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		if(n > 0){
 			for(stack_t i = 0; i < n; ++i){
@@ -183,7 +183,7 @@ FungeError Unefunge98Strategy::instructionUnder(){
 
 FungeError Unefunge98Strategy::instructionBegin(){
 	const stack_t n = stack.top().pop();
-	stack.push();
+	stack.insert(0);
 	if(n > 0){
 		stack_t trans[n];
 		for(stack_t i = 0; i < n; ++i){
@@ -209,7 +209,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 
 FungeError Unefunge98Strategy::instructionEnd(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
@@ -226,7 +226,7 @@ FungeError Unefunge98Strategy::instructionEnd(){
 				stack.second().pop();
 			}
 		}
-		stack.pop();
+		stack.remove(1);
 	}else{
 		ret = ERROR_UNSPEC;
 	}
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 2bd50bd..691a24e 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -117,6 +117,12 @@ class StackStack {
 		 */
 		size_t size() const;
 
+		/**
+		 * Check if there is a stack below the selected one.
+		 * @return true if second() exists.
+		 */
+		bool hasSecond() const;
+
 		/**
 		 * Set the stack mode.
 		 * @param m New mode.
-- 
2.43.0


From 3d6ec1f9a56e7dfc2a8b53cf7a9a41ccd3e83589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 35/59] fix: ><> ] used stacks or registers that do not exist
 after D or C

---
 src/FishStrategy.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index b1e444b..fe031e7 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -367,13 +367,16 @@ FungeError FishStrategy::instructionCreateStack(){
 }
 
 FungeError FishStrategy::instructionRemoveStack(){
-	check_selected(selected);
-	check_selected(selected+1);
+	if(!stack.hasSecond()){
+		return ERROR_UNSPEC;
+	}
 	while(stack.top().size() > 0){
 		push(SECOND, pop(TOP));
 	}
-	stack.pop();
-	regs.pop();
+	stack.remove(1);
+	if(regs.size() > 1){
+		regs.pop();
+	}
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 9b4582637eb8abb70f49686ae1b0ef9c1e9c4458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 36/59] fix: *><> R removed the stack in use instead of the
 return address, and read one that does not exist

---
 src/StarfishStrategy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index 66b544a..f770be5 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -64,10 +64,13 @@ FungeError StarfishStrategy::instructionCall(){
 }
 
 FungeError StarfishStrategy::instructionReturn(){
+	if(!stack.hasSecond()){
+		return ERROR_UNSPEC;
+	}
 	check_stack(second, runner.getUniverse().dimensions());
 	Vector v = popVector(SECOND);
 	ip.setPos(v);
-	stack.remove(selected+1);
+	stack.remove(selected+2);
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From ef6cd1d3b0994d9d8c35b9fabbcc02d36b50e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 37/59] fix: -fthreads=native never ended: nothing woke the
 waiter, and the destructor joined the same thread for ever

---
 src/FungeUniverse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 26d6ba6..928fb97 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -58,6 +58,7 @@ FungeUniverse::~FungeUniverse(){
 	while(threads.size() > 0){
 		std::thread* thread = threads.front();
 		thread->join();
+		threads.pop();
 		delete thread;
 	}
 	while(runners.size() > 0){
@@ -104,7 +105,7 @@ void FungeUniverse::addRunner(FungeRunner* runner){
 }
 
 void FungeUniverse::operator()(){
-	while(running){
+	do{
 		semaphore.acquire();
 		if(config.threads == THREAD_NATIVE){
 			mutex.lock();
@@ -118,6 +119,7 @@ void FungeUniverse::operator()(){
 				threads.pop();
 				delete thread;
 			}
+			cv.notify_all();
 			mutex.unlock();
 		}else{
 			mutex.lock();
@@ -145,7 +147,7 @@ void FungeUniverse::operator()(){
 			}
 			mutex.unlock();
 		}
-	}
+	}while(running);
 }
 
 void FungeUniverse::wait() const{
-- 
2.43.0


From 4b01adc937ffd90533a01819ac056fff60c963af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 38/59] fix: MVRS G and J gave an IP to the other universe
 while it was still being executed

---
 src/FungeRunner.cpp         |  6 +++++-
 src/FungeUniverse.cpp       | 33 +++++++++++++++++++++++++++------
 src/include/FungeUniverse.h | 16 ++++++++++++++++
 3 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 5e71d70..261953b 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -123,10 +123,14 @@ bool FungeRunner::isRunning() const {
 }
 
 void FungeRunner::operator()(){
-	while(!ip.isStopped()){
+	FungeUniverse* home = universe;
+	while(!ip.isStopped() && universe == home){
 		tick();
 		std::this_thread::yield();
 	}
+	if(universe != home){
+		home->handOver(this);
+	}
 }
 
 void FungeRunner::tick(){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 928fb97..1105f57 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -10,6 +10,8 @@
 
 namespace Funge {
 
+std::atomic<size_t> FungeUniverse::transfers(0);
+
 FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const FungeConfig& cfg):
 	running(true),
 	exitcode(0),
@@ -19,6 +21,7 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 	thread(nullptr),
 	threads(),
 	runners(),
+	leaving(0),
 	creator(nullptr),
 	semaphore(0),
 	mutex(),
@@ -39,6 +42,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 	thread(nullptr),
 	threads(),
 	runners(),
+	leaving(0),
 	creator(nullptr),
 	semaphore(0),
 	mutex(),
@@ -85,14 +89,29 @@ void FungeUniverse::createRunner(const Vector& pos, const Vector& delta, FungeRu
 
 void FungeUniverse::transferRunner(FungeRunner* runner){
 	if(&runner->getUniverse() != this){
-		std::lock_guard<std::mutex> guard(mutex);
+		// The universe that is executing the runner hands it over when it is done with it
 		runner->setUniverse(*this);
 		runner->setMode(config.mode);
-		runners.push_back(runner);
-		semaphore.release();
 	}
 }
 
+void FungeUniverse::handOver(FungeRunner* runner){
+	{
+		std::lock_guard<std::mutex> guard(mutex);
+		runners.remove(runner);
+		++leaving;
+	}
+	runner->getUniverse().addRunner(runner);
+	++transfers;
+	std::lock_guard<std::mutex> guard(mutex);
+	--leaving;
+	cv.notify_all();
+}
+
+size_t FungeUniverse::countTransfers(){
+	return transfers;
+}
+
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	runner->setMode(config.mode);
@@ -132,8 +151,8 @@ void FungeUniverse::operator()(){
 				}
 				mutex.lock();
 
-				runners.pop_front();
 				if(&thread->getUniverse() == this){
+					runners.pop_front();
 					if(thread->isRunning()){
 						runners.push_back(thread);
 					}else{
@@ -142,7 +161,9 @@ void FungeUniverse::operator()(){
 						cv.notify_all();
 					}
 				}else{
-					cv.notify_all();
+					mutex.unlock();
+					handOver(thread);
+					mutex.lock();
 				}
 			}
 			mutex.unlock();
@@ -171,7 +192,7 @@ void FungeUniverse::killAll(int ret){
 }
 
 bool FungeUniverse::isRunning() const{
-	bool alive = (runners.size() > 0);
+	bool alive = (runners.size() > 0 || leaving > 0);
 	if(config.threads == THREAD_NATIVE){
 		alive = (threads.size() > 0);
 	}
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 954bfee..9dca0d8 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -11,6 +11,7 @@
 #include "FungeRunner.h"
 #include "FungeDebugger.h"
 #include "FungeSem.h"
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <iostream>
@@ -94,6 +95,18 @@ class FungeUniverse {
 		 */
 		void transferRunner(FungeRunner* runner);
 
+		/**
+		 * Hand a runner over to the universe it was transferred to.
+		 * @param runner Runner that is not executing anymore.
+		 */
+		void handOver(FungeRunner* runner);
+
+		/**
+		 * Count the runners handed over between all universes.
+		 * @return Number of runners handed over so far.
+		 */
+		static size_t countTransfers();
+
 		/**
 		 * Determine how the universe was created.
 		 * @return runner that created the universe.
@@ -124,6 +137,8 @@ class FungeUniverse {
 		bool invertHL() const;
 	
 	private:
+		static std::atomic<size_t> transfers;
+
 		bool running;
 		int exitcode;
 		FungeConfig config;
@@ -132,6 +147,7 @@ class FungeUniverse {
 		std::thread* thread;
 		std::queue<std::thread*> threads;
 		std::list<FungeRunner*> runners;
+		size_t leaving;
 		FungeRunner* creator;
 		FungeSem semaphore;
 		mutable std::mutex mutex;
-- 
2.43.0


From d3a037ab971305a25fd1643111e92778758bb653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 39/59] fix: creating a third universe of the same name never
 returned

---
 src/FungeMultiverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e240f2e..37ceab8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -34,7 +34,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
@@ -50,7 +50,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
-- 
2.43.0


From 51d4155c690a4064e689b0089832842a5dfd6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 40/59] fix: waiting for all universes could return while a
 runner moved between them

---
 src/FungeMultiverse.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 37ceab8..24911a8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -62,19 +62,24 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 
 int FungeMultiverse::waitAll(){
 	bool running = false;
-	size_t count = 0;
+	size_t transfers = 0;
+	std::unordered_map<std::string, FungeUniverse*> all;
 	do{
 		running = false;
-		for(auto next : universes){
+		transfers = FungeUniverse::countTransfers();
+		{
+			std::lock_guard<std::mutex> guard(mutex);
+			all = universes;
+		}
+		for(auto next : all){
 			const FungeUniverse* uni = next.second;
 			if(uni->isRunning()){
 				running = true;
 			}
 			uni->wait();
-			++count;
 		}
-		// Keep looping until all universes are dead
-	}while(running || count < universes.size());
+		// Keep looping until all universes are dead, and no runner moved among them meanwhile
+	}while(running || transfers != FungeUniverse::countTransfers() || all.size() < size());
 
 	return prime->get();
 }
@@ -86,6 +91,7 @@ void FungeMultiverse::killAll(int ret){
 }
 
 FungeUniverse* FungeMultiverse::operator[](std::string name){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(universes.contains(name)){
 		return universes[name];
 	}
@@ -100,6 +106,7 @@ std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse:
 }
 
 size_t FungeMultiverse::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return universes.size();
 }
 
-- 
2.43.0


From 1bccf0ac542e95b749574da9501b89bd57e510ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:36 +0000
Subject: [PATCH 41/59] fix: universes made by MVRS B and by dynamic
 fingerprints did not inherit what the program may do

---
 src/fingerprint/FingerprintFungeLib.cpp | 4 ++++
 src/fingerprint/FingerprintMVRS.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fingerprint/FingerprintFungeLib.cpp b/src/fingerprint/FingerprintFungeLib.cpp
index 4e6384f..86594da 100644
--- a/src/fingerprint/FingerprintFungeLib.cpp
+++ b/src/fingerprint/FingerprintFungeLib.cpp
@@ -39,6 +39,10 @@ FingerprintFungeLib* FingerprintFungeLib::factory(FungeRunner& r, const std::str
 		FungeConfig config;
 		config.name = std::filesystem::canonical(fl);
 		config.standard = FUNGE_98;
+		config.concurrent = r.getUniverse().allowConcurrent();
+		config.execute = r.getUniverse().allowExecute();
+		config.filesystem = r.getUniverse().allowFilesystem();
+		config.fingerprint = r.getUniverse().allowFingerprints();
 		if(r.isMode(FUNGE_MODE_DEBUG)){
 			config.mode |= FUNGE_MODE_DEBUG;
 		}
diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index 4b44a70..e4c5b4f 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -55,6 +55,10 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				config.dimensions = dim;
 				config.standard = stand;
 				config.mode = flgs;
+				config.concurrent = universe.allowConcurrent();
+				config.execute = universe.allowExecute();
+				config.filesystem = universe.allowFilesystem();
+				config.fingerprint = universe.allowFingerprints();
 				multi.create(config);
 			}
 		} break;
-- 
2.43.0


From 83a0a8d5c0134fcbd4dd659edc48d3483115028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:14 +0000
Subject: [PATCH 42/59] fix: MVRS F and P copied one cell more than asked for
 along each axis

---
 src/fingerprint/FingerprintMVRS.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index e4c5b4f..cd35b3f 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -121,7 +121,16 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 }
 
 void FingerprintMVRS::copySpace(const Field& fsrc, const Vector& src, const Vector& sz, Field& fdest, const Vector& dest) const {
-	VectorRange range(Vector{0}, sz);
+	Vector last(sz);
+	size_t dims = std::max(sz.size(), runner.getUniverse().dimensions());
+	for(size_t d = 0; d < dims; ++d){
+		dim_t s = sz.get(d);
+		if(s == 0){
+			return; // Nothing to copy
+		}
+		last.set(d, (s > 0) ? s-1 : s+1);
+	}
+	VectorRange range(Vector{0}, last);
 	for(range.begin(); *range != range.end(); ++range){
 		inst_t i = fsrc.get(src + *range);
 		fdest.put(dest + *range, i);
-- 
2.43.0


From 1cc304513026489f072edda665989618e273bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 43/59] fix: MODU M and U returned the divisor for multiples of
 it, and M was not floored

---
 fing/MODU.fl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fing/MODU.fl b/fing/MODU.fl
index b070f69..baf62d7 100644
--- a/fing/MODU.fl
+++ b/fing/MODU.fl
@@ -1,12 +1,12 @@
 =M
-:#v_$$0@     >1-v
-  >:2K\/:0\`#^_ >*-@
+:#v_$$0@
+  >:2K\%1K0\`1K0\`-:*1K!!*2K*+\$\$@
 =R
 :#v_$$0@
   >%@
 =U
-:#v_$$0@    >\$\$@ >    v
-  >:2K\%:0`#^_\:0`#^_0\->+\$@
+:#v_$$0@
+  >:2K\%:0\`2K:0\`2*1\-**+\$\$@
 Above matches CCBI, below matches rcfunge
 :#v_$$0@
   >:0`#v_0\->\:0`#v_0\->\%@
-- 
2.43.0


From 26b0010cd5bba3b27700c872d012c628e69ab12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:15 +0000
Subject: [PATCH 44/59] fix: blank lines and trailing blanks of an FMV file,
 and one in the current directory, were misread

---
 src/Funge.cpp           | 11 ++++++-----
 src/FungeMultiverse.cpp |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index b290d81..d762ced 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -20,7 +20,6 @@ namespace Funge{
 int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
 
 int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
-	std::string dir = filepath.parent_path();
 	std::ifstream stream(filepath);
 	if(stream.fail()){
 		std::cerr << "Failed to open " << filepath << std::endl;
@@ -34,15 +33,17 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 
 		std::string filename;
 		iss >> filename;
+		if(filename.empty()){
+			continue;
+		}
 		std::filesystem::path path(filename);
 		if(path.is_relative()){
-			path.assign(dir + path.preferred_separator + filename);
+			path = filepath.parent_path() / path;
 		}
 		// Get arguments for this universe
 		FungeConfig cfg(config);
-		while(iss.good()){
-			std::string arg;
-			iss >> arg;
+		std::string arg;
+		while(iss >> arg){
 			cfg.args.push_back(arg);
 		}
 
diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 24911a8..1063d43 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -81,7 +81,7 @@ int FungeMultiverse::waitAll(){
 		// Keep looping until all universes are dead, and no runner moved among them meanwhile
 	}while(running || transfers != FungeUniverse::countTransfers() || all.size() < size());
 
-	return prime->get();
+	return (prime == nullptr) ? 0 : prime->get();
 }
 
 void FungeMultiverse::killAll(int ret){
-- 
2.43.0


From 429a35a653139e40caf414a382b11a3cca296b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:15 +0000
Subject: [PATCH 45/59] fix: an option without its value crashed

---
 src/Funge.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index d762ced..ea74949 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -102,6 +102,12 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	return 0;
 }
 
+const char* optionValue(char* option){
+	std::strtok(option, "=");
+	const char* value = std::strtok(NULL, "=");
+	return (value == nullptr) ? "" : value;
+}
+
 int fungemain(int argc, char **argv, char **envp){
 	FungeConfig funge_config;
 	std::filesystem::path filepath;
@@ -110,8 +116,7 @@ int fungemain(int argc, char **argv, char **envp){
 		if(argv[a][0] != '-'){
 			break;
 		}else if(strncmp(argv[a], "-std=", 5) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = optionValue(argv[a]);
 			if(strcmp(arg, "une93") == 0){
 				funge_config.dimensions = 1;
 				funge_config.standard = Funge::FUNGE_93;
@@ -166,8 +171,7 @@ int fungemain(int argc, char **argv, char **envp){
 		}else if(strcmp(argv[a], "-finvert-hl") == 0){
 			funge_config.inverthl = true;
 		}else if(strncmp(argv[a], "-ftopo=", 7) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = strtok(NULL, "=");
+			const char* arg = optionValue(argv[a]);
 			if(strcmp(arg, "torus") == 0){
 				funge_config.topo = TOPO_TORUS;
 			}else if(strcmp(arg, "lahey") == 0){
@@ -177,8 +181,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fstrings=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = optionValue(argv[a]);
 			if(strcmp(arg, "multispace") == 0){
 				funge_config.strings = STRING_MULTISPACE;
 			}else if(strcmp(arg, "sgml") == 0){
@@ -190,8 +193,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fcells=", 8) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = optionValue(argv[a]);
 			if(strcmp(arg, "char") == 0){
 				funge_config.cells = CELL_CHAR;
 			}else if(strcmp(arg, "int") == 0){
@@ -201,8 +203,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fthreads=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = optionValue(argv[a]);
 			if(strcmp(arg, "native") == 0){
 				funge_config.threads = THREAD_NATIVE;
 			}else if(strcmp(arg, "funge") == 0){
-- 
2.43.0


From 7345fba9179316eacf9b45f18ab9c8966db75e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:15 +0000
Subject: [PATCH 46/59] fix: -l truncated fingerprints of more than four
 characters

---
 src/Funge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index ea74949..07985c9 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -214,7 +214,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-l", 2) == 0){
 			std::string fing(&argv[a][2]);
-			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), 0, [](uint64_t f, char c){return (f << 8) + c;});
+			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), uint64_t{0}, [](uint64_t f, unsigned char c){return (f << 8) + c;});
 			funge_config.fingerprints.push_back(fingerprint);
 		}else if(strcmp(argv[a], "-g") == 0){
 			funge_config.mode |= FUNGE_MODE_DEBUG;
-- 
2.43.0


From 4bc422be7224ef40d6053426e60057114c2be83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:15 +0000
Subject: [PATCH 47/59] fix: opening a directory as a program never returned

---
 src/Funge.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 07985c9..53ed4e3 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -21,7 +21,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
 
 int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 	std::ifstream stream(filepath);
-	if(stream.fail()){
+	if(stream.fail() || std::filesystem::is_directory(filepath)){
 		std::cerr << "Failed to open " << filepath << std::endl;
 		return EIO;
 	}
@@ -91,7 +91,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	}
 	
 	std::ifstream stream(filepath);
-	if(stream.fail()){
+	if(stream.fail() || std::filesystem::is_directory(filepath)){
 		std::cerr << "Failed to open " << filepath << std::endl;
 		return EIO;
 	}
-- 
2.43.0


From d3b4def05072da8249822e7577fdd3c7c96ce048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 48/59] fix: reading a vector that is not closed never returned

---
 src/Vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.cpp b/src/Vector.cpp
index 354659e..846e7a5 100644
--- a/src/Vector.cpp
+++ b/src/Vector.cpp
@@ -171,14 +171,14 @@ std::ostream& operator<<(std::ostream& os, const Vector& rhs){
 
 std::istream& operator>>(std::istream& is, Vector& rhs){
 	rhs.values.clear();
-	char c;
+	char c = '\0';
 	is >> c;
 	if(c == '('){
 		is >> c;
 		size_t d = 0;
 		dim_t v = 0;
 		bool neg = false;
-		while(c != ')'){
+		while(is.good() && c != ')'){
 			if(isdigit(c)){
 				v = (v*10)+(c-'0');
 			}else if(c == ','){
-- 
2.43.0


From 15ebcbcd9eaf47b9d3a97f9c70447f9c50e73b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 49/59] fix: the debugger looped at the end of its input, and
 quit executed one more instruction

---
 src/Defunge.cpp     | 4 +++-
 src/FungeRunner.cpp | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e02b280..2e724a5 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -97,7 +97,9 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 		std::cout << "\e[33m(defunge)\e[0m " << std::flush;
 		
 		std::string line;
-		std::getline(std::cin, line);
+		if(!std::getline(std::cin, line)){
+			line = "quit"; // End of input
+		}
 		auto iss = std::istringstream(line);
 		
 		std::string cmd;
diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 261953b..8049eef 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -137,6 +137,9 @@ void FungeRunner::tick(){
 	FungeError err = ERROR_UNSPEC;
 	do {
 		getUniverse().getDebugger().tick(*this);
+		if(ip.isStopped()){
+			break; // Quit by the debugger
+		}
 		inst_t i = ip.get();
 		err = execute(i);
 		switch(err){
-- 
2.43.0


From 75e847b24f6d6feb2b302fd55449d79a9ff668ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 50/59] fix: the debugger used IPs that had ended, and listed
 one IP in place of all

---
 src/Defunge.cpp       | 15 +++++++--------
 src/FungeDebugger.cpp | 11 +++++++----
 src/FungeUniverse.cpp |  1 +
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 2e724a5..03bc00a 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -126,7 +126,7 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 }
 
 void Defunge::printIP(const FungeRunner& r){
-	const InstructionPointer& ip = runner->getIP();
+	const InstructionPointer& ip = r.getIP();
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
@@ -138,7 +138,7 @@ void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& c
 		inst_t i = field.get(pos);
 		bool color = false;
 		for(auto t : dbg->threads){
-			if(t.second.runner->getIP().getPos() == pos){
+			if(t.second.state != FungeDebugger::STATE_END && t.second.runner->getIP().getPos() == pos){
 				std::cout << "\e[43;1m"; // Yellow background
 				color = true;
 				break;
@@ -268,7 +268,7 @@ Defunge::Error Defunge::threadCommand(std::istringstream& iss){
 	}
 	size_t thread = tid;
 	iss >> thread;
-	if(debugger->threads.contains(thread)){
+	if(debugger->threads.contains(thread) && debugger->threads[thread].state != FungeDebugger::STATE_END){
 		tid = thread;
 		runner = debugger->threads[tid].runner;
 	}
@@ -435,11 +435,10 @@ Defunge::Error Defunge::universeCommand(std::istringstream& iss){
 		FungeUniverse* uni = multi[name];
 		if(uni != nullptr){
 			debugger = &uni->getDebugger();
-			if(debugger->threads.empty()){
-				runner = nullptr;
-			}else{
-				size_t id = debugger->lastThread;
-				runner = debugger->threads[id].runner;
+			runner = nullptr;
+			auto last = debugger->threads.find(debugger->lastThread);
+			if(last != debugger->threads.end() && last->second.state != FungeDebugger::STATE_END){
+				runner = last->second.runner;
 			}
 		}
 	}
diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index a68401b..de65362 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -29,12 +29,12 @@ void FungeDebugger::tick(FungeRunner& runner){
 		intro(runner);
 		size_t id = runner.getID();
 		auto found = threads.find(id);
-		if(found == threads.end()){
-			threads.insert({id, Thread{
+		if(found == threads.end() || found->second.state == STATE_END){
+			threads.insert_or_assign(id, Thread{
 				.runner = &runner,
 				.backtrace = {},
 				.state = FungeDebugger::STATE_START,
-			}});
+			});
 			std::cout << "New IP " << id << std::endl;
 		}
 		lastThread = id;
@@ -102,7 +102,10 @@ void FungeDebugger::addWatchpoint(const Vector& vec){
 }
 
 void FungeDebugger::endThread(const FungeRunner& runner){
-	threads[runner.getID()].state = STATE_END;
+	auto found = threads.find(runner.getID());
+	if(found != threads.end()){
+		found->second.state = STATE_END;
+	}
 }
 
 void FungeDebugger::intro(FungeRunner& runner){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 1105f57..6a5f86a 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -99,6 +99,7 @@ void FungeUniverse::handOver(FungeRunner* runner){
 	{
 		std::lock_guard<std::mutex> guard(mutex);
 		runners.remove(runner);
+		debug.endThread(*runner);
 		++leaving;
 	}
 	runner->getUniverse().addRunner(runner);
-- 
2.43.0


From f795cfc27376da32408a4461dd4769c16d826e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 51/59] fix: peek at a stack that does not exist crashed the
 debugger

---
 src/Defunge.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 03bc00a..2fb9fff 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -213,7 +213,7 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	iss >> c;
 	if(c == 0){
 		for(size_t j = 0; j < stack->size(); ++j){
-			std::cout << "[0] ";
+			std::cout << "[" << j << "] ";
 			for(size_t i = stack->at(j).size(); i > 0; --i){
 				std::cout << stack->at(j).get(i) << " ";
 			}
@@ -222,7 +222,11 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	}else{
 		size_t s = 0;
 		iss >> s;
-		std::cout << stack->at(s).get(c) << std::endl;
+		if(s < stack->size()){
+			std::cout << stack->at(s).get(c) << std::endl;
+		}else{
+			std::cout << "No stack." << std::endl;
+		}
 	}
 	return DEFUNGE_OK;
 }
-- 
2.43.0


From abe8b8c047019700b860eaa905c643a36ac4e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 52/59] fix: moving many cells between stacks overflowed the
 machine stack

---
 src/Unefunge98Strategy.cpp             | 4 ++--
 src/fingerprint/FingerprintDynamic.cpp | 2 +-
 src/fingerprint/FingerprintFISH.cpp    | 6 +++---
 src/fingerprint/FingerprintFRTH.cpp    | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index ca4e7ce..a10579b 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -185,7 +185,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 	const stack_t n = stack.top().pop();
 	stack.insert(0);
 	if(n > 0){
-		stack_t trans[n];
+		std::vector<stack_t> trans(n);
 		for(stack_t i = 0; i < n; ++i){
 			trans[i] = stack.second().pop();
 		}
@@ -214,7 +214,7 @@ FungeError Unefunge98Strategy::instructionEnd(){
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
 		if(n > 0){
-			stack_t trans[n];
+			std::vector<stack_t> trans(n);
 			for(stack_t i = 0; i < n; ++i){
 				trans[i] = stack.top().pop();
 			}
diff --git a/src/fingerprint/FingerprintDynamic.cpp b/src/fingerprint/FingerprintDynamic.cpp
index 41138b7..cbf191b 100644
--- a/src/fingerprint/FingerprintDynamic.cpp
+++ b/src/fingerprint/FingerprintDynamic.cpp
@@ -69,7 +69,7 @@ FungeError FingerprintDynamic::execute(inst_t cmd){
 				if(u < 0){
 					count = -u;
 				}
-				stack_t pops[count+1];
+				std::vector<stack_t> pops(count+1);
 				for(stack_t i = 0; i <= count; ++i){
 					pops[i] = stack.top().pop();
 				}
diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 1cc900f..9430259 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -70,7 +70,7 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 			if(len == 0){
 				break;
 			}
-			stack_t temp[len];
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
@@ -104,7 +104,7 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 			if(len == 0){
 				break;
 			}
-			stack_t temp[len];
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
@@ -119,7 +119,7 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 			if(len == 0){
 				break;
 			}
-			stack_t temp[len];
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
diff --git a/src/fingerprint/FingerprintFRTH.cpp b/src/fingerprint/FingerprintFRTH.cpp
index 6555983..dc96165 100644
--- a/src/fingerprint/FingerprintFRTH.cpp
+++ b/src/fingerprint/FingerprintFRTH.cpp
@@ -25,7 +25,7 @@ FungeError FingerprintFRTH::execute(inst_t cmd){
 			if(u < 0){
 				count = -u;
 			}
-			stack_t pops[count+1];
+			std::vector<stack_t> pops(count+1);
 			for(stack_t i = 0; i <= count; ++i){
 				pops[i] = stack.top().pop();
 			}
-- 
2.43.0


From 43f33b550283d40cd7b14444971279058a28f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 53/59] fix: a single precision result was read from beyond its
 four bytes

---
 src/fingerprint/include/FingerprintFloat.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 4f834ab..0ddab1f 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -8,6 +8,7 @@
 
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
+#include <cstring>
 #include <iomanip>
 
 namespace Funge {
@@ -141,11 +142,15 @@ class FingerprintFloat : public Fingerprint {
 
 	private:
 		T stackToT(stack_t n){
-			return *reinterpret_cast<T*>(&n);
+			T t;
+			std::memcpy(&t, &n, sizeof(t));
+			return t;
 		}
 
-		stack_t TToStack(T n){
-			return *reinterpret_cast<stack_t*>(&n);
+		stack_t TToStack(T t){
+			stack_t n = 0;
+			std::memcpy(&n, &t, sizeof(t));
+			return n;
 		}
 };
 
-- 
2.43.0


From e68989e99442163b69d6dde4f84ea336c8036b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 54/59] fix: FPDP and FPSP R ended the program on a text that
 is no number

---
 src/fingerprint/include/FingerprintFloat.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 0ddab1f..ba80df0 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -8,6 +8,7 @@
 
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
+#include <cstdlib>
 #include <cstring>
 #include <iomanip>
 
@@ -103,7 +104,11 @@ class FingerprintFloat : public Fingerprint {
 				} break;
 				case 'R':{
 					std::string s = popString(stack.top());
-					double d = std::stod(s);
+					char* end = nullptr;
+					double d = std::strtod(s.c_str(), &end);
+					if(end == s.c_str()){
+						return ERROR_UNSPEC;
+					}
 					T n = static_cast<T>(d);
 					stack.top().push(TToStack(n));
 				} break;
-- 
2.43.0


From 3af259454411ac2b0972c720ed11386e2ed8a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 55/59] fix: FPRT passed any format to snprintf, which then
 read or wrote what was not there

---
 src/fingerprint/FingerprintFPRT.cpp | 86 ++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 20 deletions(-)

diff --git a/src/fingerprint/FingerprintFPRT.cpp b/src/fingerprint/FingerprintFPRT.cpp
index 892a258..4ad0484 100644
--- a/src/fingerprint/FingerprintFPRT.cpp
+++ b/src/fingerprint/FingerprintFPRT.cpp
@@ -6,9 +6,60 @@
 
 #include "FingerprintFPRT.h"
 #include "FungeUtilities.h"
+#include <cstdio>
 
 namespace Funge {
 
+/**
+ * Format a single value.
+ * @param str Formatted string.
+ * @param fmt Format, with at most one conversion.
+ * @param conversions Conversions that suit the value.
+ * @param length Length modifier of the value.
+ * @param value Value to format.
+ * @return true if the format suits the value.
+ */
+template <typename T>
+static bool format(std::string& str, const std::string& fmt, const std::string& conversions, const std::string& length, T value){
+	const std::string flags("-+ #0123456789.");
+	const std::string lengths("hlLqjzt");
+	std::string f;
+	bool found = false;
+	for(size_t i = 0; i < fmt.size(); ++i){
+		f += fmt[i];
+		if(fmt[i] != '%'){
+			continue;
+		}
+		++i;
+		if(i < fmt.size() && fmt[i] == '%'){
+			f += fmt[i];
+			continue;
+		}
+		while(i < fmt.size() && flags.find(fmt[i]) != std::string::npos){
+			f += fmt[i];
+			++i;
+		}
+		while(i < fmt.size() && lengths.find(fmt[i]) != std::string::npos){
+			++i;
+		}
+		if(found || i >= fmt.size() || conversions.find(fmt[i]) == std::string::npos){
+			return false;
+		}
+		found = true;
+		f += length;
+		f += fmt[i];
+	}
+
+	int cnt = snprintf(nullptr, 0, f.c_str(), value);
+	if(cnt < 0){
+		return false;
+	}
+	str.resize(static_cast<size_t>(cnt) + 1);
+	snprintf(&str[0], str.size(), f.c_str(), value);
+	str.resize(static_cast<size_t>(cnt));
+	return true;
+}
+
 FingerprintFPRT::FingerprintFPRT(FungeRunner& r) :
 	Fingerprint(r, {'D', 'F', 'I', 'L', 'S'})
 {}
@@ -20,60 +71,55 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 			stack_t n = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			double f = *reinterpret_cast<double*>(&n);
-			char str[1024];
-			int cnt = snprintf(str, sizeof(str), fmt.c_str(), f);
-			if(cnt < 0){
+			std::string str;
+			if(!format(str, fmt, "aAeEfFgG", "", f)){
 				ret = ERROR_UNSPEC;
 				break;
 			}
-			pushString(stack.top(), std::string(str));
+			pushString(stack.top(), str);
 		} break;
 		case 'F':{
 			stack_t n = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			double f = *reinterpret_cast<float*>(&n);
-			char str[1024];
-			int cnt = snprintf(str, sizeof(str), fmt.c_str(), f);
-			if(cnt < 0){
+			std::string str;
+			if(!format(str, fmt, "aAeEfFgG", "", f)){
 				ret = ERROR_UNSPEC;
 				break;
 			}
-			pushString(stack.top(), std::string(str));
+			pushString(stack.top(), str);
 		} break;
 		case 'I':{
 			stack_t i = stack.top().pop();
 			std::string fmt = popString(stack.top());
-			char str[1024];
-			int cnt = snprintf(str, sizeof(str), fmt.c_str(), i);
-			if(cnt < 0){
+			std::string str;
+			if(!format(str, fmt, "diouxX", "ll", static_cast<long long>(i))){
 				ret = ERROR_UNSPEC;
 				break;
 			}
-			pushString(stack.top(), std::string(str));
+			pushString(stack.top(), str);
 		} break;
 		case 'L':{
 			stack_t l = stack.top().pop();
 			stack_t h = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			stack_t n = (h << 32) | (l & 0xFFFFFFFF);
-			char str[1024];
-			int cnt = snprintf(str, sizeof(str), fmt.c_str(), n);
-			if(cnt < 0){
+			std::string str;
+			if(!format(str, fmt, "diouxX", "ll", static_cast<long long>(n))){
 				ret = ERROR_UNSPEC;
 				break;
 			}
-			pushString(stack.top(), std::string(str));
+			pushString(stack.top(), str);
 		} break;
 		case 'S':{
 			std::string s = popString(stack.top());
 			std::string fmt = popString(stack.top());
-			char str[1024];
-			int cnt = snprintf(str, sizeof(str), fmt.c_str(), s.c_str());
-			if(cnt < 0){
+			std::string str;
+			if(!format(str, fmt, "s", "", s.c_str())){
 				ret = ERROR_UNSPEC;
 				break;
 			}
-			pushString(stack.top(), std::string(str));
+			pushString(stack.top(), str);
 		} break;
 		default:
 			ret = ERROR_UNIMP;
-- 
2.43.0


From 322427860b80722a07339bee7981bf35563979b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 56/59] fix: a malformed or large number in a BeQunge file
 ended the program or was read for ever

---
 src/Field.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c791034..fb8a08d 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -5,7 +5,9 @@
  */
 
 #include "Field.h"
+#include <algorithm>
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <sstream>
 
@@ -106,6 +108,15 @@ std::vector<std::string> splitString(std::string str, char delim){
 	return ret;
 }
 
+static dim_t parseNumber(const std::string& str){
+	try{
+		return std::stoll(str);
+	}catch(const std::logic_error&){
+		std::cerr << "Malformed number: " << str << std::endl;
+		return 0;
+	}
+}
+
 void Field::parseBeq(std::istream& file){
 	size_t dims = 0;
 	while(file.good()){
@@ -121,30 +132,30 @@ void Field::parseBeq(std::istream& file){
 				// ok
 			}else if(cmd[0] == "Dimensions"){
 				if(dims == 0){
-					dims = std::stoul(cmd[1]);
+					dims = std::max<dim_t>(parseNumber(cmd[1]), 0);
 				}else{
 					std::cerr << "Unexpected dimensions" << std::endl;
 				}
 			}else if(cmd[0] == "Lines"){
-				lines = std::stoul(cmd[1]);
+				lines = std::max<dim_t>(parseNumber(cmd[1]), 0);
 			}else if(cmd[0] == "Origin"){
 				auto orig = splitString(cmd[1], ':');
 				for(dim = 0; dim < orig.size(); ++dim){
-					origin.set(dim, std::stoi(orig[dim]));
+					origin.set(dim, parseNumber(orig[dim]));
 				}
 			}else if(cmd[0] == "Coord"){
 				auto orig = splitString(cmd[1], ':');
 				size_t start = dim;
 				for( ; dim < orig.size()+start; ++dim){
 					if(orig[dim-start].size() > 0){
-						origin.set(dim, std::stoi(orig[dim-start]));
+						origin.set(dim, parseNumber(orig[dim-start]));
 					}
 				}
 			}
 		}
 		if(lines > 0){
 			Vector pos(origin);
-			for(size_t i = 0; i < lines; ++i){
+			for(size_t i = 0; i < lines && file.good(); ++i){
 				std::getline(file, line);
 				for(unsigned char c : line){
 					put(pos, c);
-- 
2.43.0


From 2d90bd692c423a783d6437f0dee432bbd667bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 57/59] fix: list and get in dimensions that are equal or do
 not exist never ended or crashed

---
 src/Defunge.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 2fb9fff..609b204 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -133,8 +133,13 @@ void Defunge::printIP(const FungeRunner& r){
 void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip){
 	const Vector start = center-size;
 	const Vector end = center+size;
+	const dim_t dims = std::max<dim_t>(field.size(), 2);
+	if(dim[0] == dim[1] || dim[0] < 0 || dim[0] >= dims || dim[1] < 0 || dim[1] >= dims){
+		std::cout << "Not two dimensions: " << dim << std::endl;
+		return;
+	}
 	Vector pos = start;
-	while(pos <= end){
+	while(pos[dim[1]] <= end[dim[1]]){
 		inst_t i = field.get(pos);
 		bool color = false;
 		for(auto t : dbg->threads){
-- 
2.43.0


From db20c2cea2643937e8bc10b59da61ac9ac4fba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:12 +0000
Subject: [PATCH 58/59] fix: an IP outside the program that moved away from it
 never came back

---
 src/InstructionPointer.cpp       | 45 ++++++++++++++++++++++++++++----
 src/include/InstructionPointer.h |  7 +++++
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index dd2c7af..1436c20 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -4,6 +4,10 @@
  * @author Conlan Wesson
  */
 
+#include <algorithm>
+#include <cstdint>
+#include <utility>
+
 #include "InstructionPointer.h"
 #include "FungeUniverse.h"
 #include "FungeRunner.h"
@@ -50,6 +54,37 @@ bool InstructionPointer::inField(const Field& field) const {
 	return true;
 }
 
+bool InstructionPointer::backtrack(const Field& field){
+	uint64_t steps = 0;
+	for(size_t n = 0; n < runner.getUniverse().dimensions(); ++n){
+		uint64_t p = pos.get(n);
+		uint64_t d = delta.get(n);
+		uint64_t dist = 0;
+		if(pos.get(n) > field.max(n) && delta.get(n) > 0){
+			dist = p - field.max(n);
+		}else if(pos.get(n) < field.min(n) && delta.get(n) < 0){
+			dist = field.min(n) - p;
+			d = -d;
+		}else if(pos.get(n) > field.max(n) || pos.get(n) < field.min(n)){
+			return false;
+		}
+		if(dist > 0){
+			steps = std::max(steps, dist/d + (dist%d != 0));
+		}
+	}
+
+	Vector back(pos);
+	for(size_t n = 0; n < runner.getUniverse().dimensions(); ++n){
+		back.set(n, static_cast<dim_t>(pos.get(n) - steps*delta.get(n)));
+	}
+	std::swap(pos, back);
+	if(!inField(field)){
+		std::swap(pos, back);
+		return false;
+	}
+	return true;
+}
+
 void InstructionPointer::next(){
 	if(!stopped){
 		pos += delta;
@@ -67,12 +102,12 @@ void InstructionPointer::next(){
 			}
 		}else{
 			if(!inField(field)){
-				delta.reverse();
-				pos += delta;
-				while(inField(field)){
-					pos += delta;
+				pos -= delta;
+				if(inField(field) || backtrack(field)){
+					while(inField(field)){
+						pos -= delta;
+					}
 				}
-				delta.reverse();
 				pos += delta;
 			}
 		}
diff --git a/src/include/InstructionPointer.h b/src/include/InstructionPointer.h
index c4c0d44..b74873f 100644
--- a/src/include/InstructionPointer.h
+++ b/src/include/InstructionPointer.h
@@ -139,6 +139,13 @@ class InstructionPointer {
 		Vector storage;
 		
 		bool inField(const Field& field) const;
+
+		/**
+		 * Move an IP that is leaving the field behind back into it.
+		 * @param field Field to move into.
+		 * @return true if the IP was moved, false if the field is not behind it.
+		 */
+		bool backtrack(const Field& field);
 };
 
 }
-- 
2.43.0


From 7c15afd169ba515ccf95f973084ec0143525524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 59/59] fix: k did not reflect when the instruction it repeats
 does

---
 src/Unefunge98Strategy.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index a10579b..fcd42e6 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -130,7 +130,15 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	ip.setPos(v);
 	int k = stack.top().pop();
 	for(int i = 0; i < k; i++){
-		runner.execute(c);
+		switch(runner.execute(c)){
+			[[likely]] case ERROR_NONE:
+			[[likely]] case ERROR_SKIP:
+			case ERROR_BLOCK:
+				break;
+			default:
+				ip.reflect();
+				break;
+		}
 	}
 	if(k == 0){
 		ip.next();
-- 
2.43.0

