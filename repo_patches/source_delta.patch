From 8ecbb32c468b89d68b4f3f8c10fc621014eb9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 1/5] fix: terminate when the substring or match is empty in
 Strings::occurrences and Strings::replaceAll

---
 src/main/cpp/Balau/Util/Impl/StringsImpl.hpp | 5 +++++
 src/main/cpp/Balau/Util/Strings.hpp          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
index 4d5e42c..9228d51 100644
--- a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
@@ -43,6 +43,11 @@ void replaceAllImpl(StringT<CharT, T ...> & input, const MatchT & match, const R
 		*count = 0;
 	}
 
+	// There is nothing to replace if the match is empty.
+	if (matchLength == 0) {
+		return;
+	}
+
 	while (true) {
 		pos = input.find(match, pos);
 
diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index f9c96d0..5ba4e21 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -226,6 +226,11 @@ struct Strings final {
 		size_t index = 0;
 		size_t count = 0;
 
+		// An empty substring has no occurrences.
+		if (Balau::Util::Impl::length(substring) == 0) {
+			return 0;
+		}
+
 		while ((index = str.find(substring, index)) != StringT<CharT, T ...>::npos) {
 			index += Balau::Util::Impl::length(substring);
 			++count;
-- 
2.43.0


From 212ddb0c36029222355a36b1ca240b81fea49761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 2/5] fix: isOctalDigit accepted the digits 8 and 9

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index b44c4ee..3809b88 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -71,7 +71,7 @@ struct Character {
 	/// Is the specified code point one of the ASCII characters 0-7.
 	///
 	static bool isOctalDigit(char32_t c) {
-		return c >= U'0' && c <= U'9';
+		return c >= U'0' && c <= U'7';
 	}
 
 	///
-- 
2.43.0


From 3fbc9352ea03a13e4e8e283a4cb34986e66a4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 3/5] fix: isValid rejected the last code point U+10FFFF

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index 3809b88..95631c4 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -301,7 +301,7 @@ struct Character {
 	/////////////////////////////// Validation ////////////////////////////////
 
 	static bool isValid(char32_t c) {
-		return c < 0x10FFFF; // Maximum Unicode code point value.
+		return c <= 0x10FFFF; // Maximum Unicode code point value.
 	}
 
 	//////////////////////////////// Mutation /////////////////////////////////
-- 
2.43.0


From 7913377f045710dfb343b7333c265a28fb2fb975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 4/5] fix: SingleTimeExecutor read an uninitialised flag

---
 src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
index 2db6545..06d3e75 100644
--- a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
+++ b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
@@ -46,7 +46,8 @@ class SingleTimeExecutor {
 	///
 	public: explicit SingleTimeExecutor(std::function<void ()> code_)
 		: code(std::move(code_))
-		, destructorCode() {}
+		, destructorCode()
+		, executed(false) {}
 
 	///
 	/// Create a single time executor with a code block and a destructor code block.
@@ -57,7 +58,8 @@ class SingleTimeExecutor {
 	///
 	public: SingleTimeExecutor(std::function<void ()> code_, std::function<void ()> destructorCode_)
 		: code(std::move(code_))
-		, destructorCode(std::move(destructorCode_)) {}
+		, destructorCode(std::move(destructorCode_))
+		, executed(false) {}
 
 	///
 	/// Destroy the single time executor.
-- 
2.43.0


From 6669bbc5f08062e71959c4400f23ba0c45d24eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 5/5] fix: MovableOnScopeExit could not be instantiated

---
 src/main/cpp/Balau/Type/MovableOnScopeExit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
index a7d8f85..5d86ac9 100644
--- a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
+++ b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
@@ -96,13 +96,17 @@ class MovableOnScopeExit final {
 			function = [] () {};
 		}
 
+		public: void reset(std::function<void ()> function_) override {
+			function = std::move(function_);
+		}
+
 		public: void executeNow() override {
 			function();
 			clear();
 		}
 
 		friend class MovableOnScopeExit;
-		private: FunctionT function;
+		private: std::function<void ()> function;
 	};
 
 	private: std::unique_ptr<ContainerBase> exiter;
-- 
2.43.0

