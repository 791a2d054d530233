From eca61875bad24d94fa48df27d8aef98bd29c3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 01/48] fix: raise and report an exception when memory is
 refused instead of using a null pointer

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 4 ++++
 PlatformSupport/PlatformSupport.cpp           | 5 ++++-
 PlatformSupport/PlatformSupport.h             | 9 +++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index edb07ab..72b6993 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -42,6 +42,10 @@ void DotnetLibrarySupport::TranslatorSupport::Run()
 	catch (Exception * ex) {
 		Send(ex->get_Message());
 	}
+	catch (const std::bad_alloc&) {
+		String message(L"Out of memory");
+		Send(&message);
+	}
 }
 
 /*!
diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 5552f83..ba45c40 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -35,7 +35,8 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	// Use malloc if not setup such as when unit tests run.
 	if (memory == nullptr) {
 		void* mem = malloc(size);
-		memset(mem, 0, size);
+		if (mem != nullptr)
+			memset(mem, 0, size);
 		return(mem);
 	}
 	uint32_t required = (uint32_t)size;
@@ -63,6 +64,8 @@ void PlatformMemorySetup()
 {
 	if (memory == nullptr) {
 		memory = (char*)malloc(MEMORY_SIZE);
+		if (memory == nullptr)
+			throw std::bad_alloc();
 		memorySize = MEMORY_SIZE;
 	}
 	memoryUsed = 0;
diff --git a/PlatformSupport/PlatformSupport.h b/PlatformSupport/PlatformSupport.h
index 9a65d4b..a6f06dc 100644
--- a/PlatformSupport/PlatformSupport.h
+++ b/PlatformSupport/PlatformSupport.h
@@ -63,8 +63,13 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
  */
 DLL_PLATFORMSUPPORT_EXPORTS void CDECL my_operator_delete_replacement(void* memory);
 
-inline void* operator new  (size_t size) {return(my_operator_new_replacement(size));}
-inline void* operator new[]  (size_t size) { return(my_operator_new_replacement(size)); }
+inline void* operator new  (size_t size) {
+	void* memory = my_operator_new_replacement(size);
+	if (memory == nullptr)
+		throw std::bad_alloc();
+	return(memory);
+}
+inline void* operator new[]  (size_t size) { return(operator new(size)); }
 inline void	operator	delete(void* memory) { my_operator_delete_replacement(memory); }
 inline void	operator	delete[](void* memory) { my_operator_delete_replacement(memory); }
 
-- 
2.43.0


From 1a8c84e32ccfc093b706fe15414a4bc9949b8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 02/48] fix: do not truncate or wrap the size of a memory
 request

---
 PlatformSupport/PlatformSupport.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index ba45c40..036f4e1 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -39,9 +39,11 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 			memset(mem, 0, size);
 		return(mem);
 	}
-	uint32_t required = (uint32_t)size;
-	required = Align(required, sizeof(double));
-	if (memoryUsed + required > memorySize)
+	uint32_t available = memorySize - memoryUsed;
+	if (size > available)
+		return(nullptr);
+	size_t required = Align(size, sizeof(double));
+	if (required > available)
 		return(nullptr);
 	memoryUsed += required;
 	char* ret = currentMemory;
-- 
2.43.0


From 7067c1846f92c342fb560f50cd9828b9ff35dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 03/48] fix: send whole messages when there is no text or a
 character cannot be encoded

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index 72b6993..c605e04 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -16,7 +16,10 @@
 // OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER
 // DEALINGS IN THE SOFTWARE.
 #include "DotNetLibrarySupport.h"
+#include <limits.h>
+#include <stdio.h>
 #include <stdlib.h>
+#include <wchar.h>
 
 /*!
  * Send a string to platform.
@@ -26,7 +29,20 @@
  */
 void DotnetLibrarySupport::TranslatorSupport::Send(String* message)
 {
-	printf("%ls\n", message->get_Buffer());
+	Int32 length = (message == nullptr) ? 0 : message->get_Length();
+	mbstate_t state = mbstate_t();
+	for (Int32 i = 0; i < length; ++i) {
+		char bytes[MB_LEN_MAX];
+		size_t size = wcrtomb(bytes, message->get_Buffer()[i], &state);
+		if (size == (size_t)-1) {
+			// character can't be represented in the output encoding
+			bytes[0] = '?';
+			size = 1;
+			state = mbstate_t();
+		}
+		fwrite(bytes, 1, size, stdout);
+	}
+	putchar('\n');
 }
 
 /*!
-- 
2.43.0


From 612430d4cf89db7ea1d39f3d22b911fb6da497f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 04/48] fix: make room for the characters a repeated append
 adds

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e46c273..aebcd9d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -262,7 +262,7 @@ namespace DotnetLibrary
 		if (repeatCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(repeatCount);
+		EnsureRoomFor(repeatCount);
 		for (int i = 0; i < repeatCount; ++i) {
 			chunkChars[currentLength++] = value;
 		}
-- 
2.43.0


From 1adb9298146fa414b68ae05c1e3ef06877a641fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 05/48] fix: expose NUL characters when a string builder's
 length grows

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index aebcd9d..dcb8347 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -108,7 +108,11 @@ namespace DotnetLibrary
 		if (delta < 0) {
 			memset(chunkChars + (currentLength + delta), 0, -delta * sizeof(Char));
 		}
+		else {
+			memset(chunkChars + currentLength, 0, delta * sizeof(Char));
+		}
 		currentLength = newLength;
+		chunkChars[currentLength] = 0;
 	}
 	Int32 StringBuilder::get_Capacity() {
 		return currentCapacity;
-- 
2.43.0


From 48cab58829c605889a70a55ca1f90c000005d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 06/48] fix: move overlapping characters correctly in
 StringBuilder::Remove

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index dcb8347..d14c886 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -344,7 +344,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 howmany = currentLength - startIndex - length;
-		memcpy(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
+		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
 		currentLength -= length;
 		chunkChars[currentLength] = 0;
 		return this;
-- 
2.43.0


From dd9b44f030abf665784cfa7c3ebd63bdf8694553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 07/48] fix: reject bad indexes and counts in
 StringBuilder::Insert, insert all copies or none

---
 DotNetLibrary/include/StringBuilder.h |  1 +
 DotNetLibrary/src/StringBuilder.cpp   | 52 +++++++++++++++++++--------
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index bf0d81a..079bd16 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -36,6 +36,7 @@ namespace DotnetLibrary
 		Int32 currentCapacity;	// total size of the array
 		Int32 currentLength;	// current offset into array for next insert
 		Int32 maxCapacity;		// max capacity for this builder
+		Int32 InsertIndex(Int32 index);	// validate where to insert
 	public:
 		StringBuilder();
 		StringBuilder(Int32 capacity);
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index d14c886..b68231d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -193,7 +193,7 @@ namespace DotnetLibrary
 		if (where == -1) {
 			where = currentLength;
 		}
-		if (where > currentLength) {
+		if (where < 0 || where > currentLength || charCount < 0) {
 			throw new IndexOutOfRangeException();
 		}
 		EnsureRoomFor(charCount);
@@ -349,19 +349,26 @@ namespace DotnetLibrary
 		chunkChars[currentLength] = 0;
 		return this;
 	}
+	Int32 StringBuilder::InsertIndex(Int32 index) {
+		if (index < 0 || index > currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
+		return index;
+	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Boolean value) {
 		BooleanValue data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Byte value) {
 		ByteValue data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Char value) {
 		CharValue data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Array* values, Int32 startIndex, Int32 charCount) {
+		Int32 where = InsertIndex(index);
 		if (values == nullptr) {
 			return (this);
 		}
@@ -381,52 +388,67 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		values->EnsureSingleDimension();
-		return (Append((Char*) values->Address(startIndex), charCount, index));
+		return (Append((Char*) values->Address(startIndex), charCount, where));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Double value) {
 		DoubleValue data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Int16 value) {
 		Int16Value data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int32 value) {
 		Int32Value data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int64 value) {
 		Int64Value data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
 		return (Insert(index, value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
+		Int32 where = InsertIndex(index);
+		Int32 length = value->get_Length();
+		if (count < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
+		if (count == 0 || length == 0) {
+			return (this);
+		}
+		if (count > (maxCapacity - currentLength) / length) {
+			throw new ArgumentOutOfRangeException();
+		}
+		EnsureRoomFor(length * count);
+		memmove(&chunkChars[where + length * count], &chunkChars[where], (currentLength - where) * sizeof(Char));
 		for (int i = 0; i < count; ++i) {
-			Append((Char*) value->Address(0), value->get_Length(), index);
+			memcpy(&chunkChars[where + i * length], value->get_Buffer(), length * sizeof(Char));
 		}
+		currentLength += length * count;
+		chunkChars[currentLength] = 0;
 		return (this);
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const SByte value) {
 		SByteValue data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Single value) {
 		SingleValue data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt16 value) {
 		UInt16Value data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, UInt32 value) {
 		UInt32Value data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt64 value) {
 		UInt64Value data(value);
-		return (Append(data, index));
+		return (Append(data, InsertIndex(index)));
 	}
 	StringBuilder* StringBuilder::Replace(const Char oldChar, const Char newChar) {
 		return Replace(oldChar, newChar, 0, currentLength);
-- 
2.43.0


From 2cb2aa152284faa786370335d0839367b996c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 08/48] fix: keep string builder length, capacity and maximum
 capacity consistent

---
 DotNetLibrary/src/StringBuilder.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index b68231d..b44b77d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -124,6 +124,9 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
+		if (capacity < currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (chunkChars != internalMemory && capacity < currentCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
@@ -134,10 +137,9 @@ namespace DotnetLibrary
 		Char* newArray = internalMemory;
 		if (capacity > DefaultCapacity) {
 			Int32 partial = capacity % DefaultCapacity;
-			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
 			if (partial > 0)
-				capacity += DefaultCapacity;
-			newArray = new Char[capacity + 1];
+				capacity += Math::Min(DefaultCapacity - partial, maxCapacity - capacity);
+			newArray = new Char[(size_t) capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
 			if (chunkChars != internalMemory)
 				delete chunkChars;
@@ -317,6 +319,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	void StringBuilder::EnsureRoomFor(Int32 amount) {
+		if (amount > maxCapacity - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureCapacity(currentLength + amount);
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
@@ -495,6 +500,9 @@ namespace DotnetLibrary
 		}
 		Int32 delta = replace->get_Length() - search->get_Length();
 		if (delta > 0) {
+			if (howMany > (maxCapacity - currentLength) / delta) {
+				throw new ArgumentOutOfRangeException();
+			}
 			EnsureRoomFor(delta * howMany);
 		}
 		ReplaceSubString(search, replace, startIndex, count);
-- 
2.43.0


From c3e0a36ae7baecac56da51af6328bafc923c0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 09/48] fix: construct string builders from empty or null
 strings

---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index b44b77d..e1a16d1 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -46,7 +46,7 @@ namespace DotnetLibrary
 		this->maxCapacity = maxCapacity;
 		set_Capacity(capacity);
 	}
-	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value->get_Length(), capacity) {
+	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value == nullptr ? 0 : value->get_Length(), capacity) {
 	}
 	StringBuilder::StringBuilder(String* value, Int32 startIndex, Int32 length, Int32 capacity) {
 		Initialize();
@@ -69,8 +69,7 @@ namespace DotnetLibrary
 			capacity = DefaultCapacity;
 		}
 		set_Capacity(Math::Max(capacity, length));
-		Char* sourcePtr = value->Address(startIndex);
-		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
+		memcpy(chunkChars, value->get_Buffer() + startIndex, length * sizeof(Char));
 		currentLength = length;
 	}
 	StringBuilder::~StringBuilder() {
-- 
2.43.0


From d11c0c912153ac3bcd5a1785d83047702e339c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 10/48] fix: compare whole texts in StringBuilder::Equals

---
 DotNetLibrary/src/StringBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e1a16d1..7f67f51 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -335,7 +335,9 @@ namespace DotnetLibrary
 	Boolean StringBuilder::Equals(StringBuilder* sb) {
 		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity)
 			return (false);
-		return wcscmp(sb->chunkChars, chunkChars) == 0;
+		if (sb->currentLength != currentLength)
+			return (false);
+		return memcmp(sb->chunkChars, chunkChars, currentLength * sizeof(Char)) == 0;
 	}
 	StringBuilder* StringBuilder::Remove(Int32 startIndex, Int32 length) {
 		if (length < 0) {
-- 
2.43.0


From c04e19b2d48405a6dbc80b8bd3958821c8611eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 11/48] fix: check ranges in StringBuilder::ToString and
 CountSubStrings

---
 DotNetLibrary/src/StringBuilder.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 7f67f51..8215978 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -155,6 +155,12 @@ namespace DotnetLibrary
 		return (&chunkChars[index1]);
 	}
 	Int32 StringBuilder::CountSubStrings(String* subString, Int32 startIndex, Int32 length) {
+		if (startIndex < 0 || length < 0 || startIndex > currentLength - length) {
+			throw new ArgumentOutOfRangeException();
+		}
+		if (subString->get_Length() == 0) {
+			throw new ArgumentOutOfRangeException();
+		}
 		Int32 amount = 0;
 		Int32 endIndex = startIndex + 1 + length - subString->get_Length();
 		Int32 bytesToCompare = subString->get_Length() * sizeof(Char);
@@ -178,9 +184,9 @@ namespace DotnetLibrary
 		return (new String(chunkChars, 0, currentLength));
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
-		if (startIndex < 0 || startIndex >= currentLength)
+		if (startIndex < 0 || startIndex > currentLength)
 			throw new IndexOutOfRangeException();
-		if (startIndex + length > currentLength)
+		if (length < 0 || length > currentLength - startIndex)
 			throw new IndexOutOfRangeException();
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
-- 
2.43.0


From 50f5d5e1075ba6baa2e27d9337befb67e009d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 12/48] fix: append a line to a string builder completely or
 not at all

---
 DotNetLibrary/src/StringBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 8215978..ab269c1 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -312,10 +312,15 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::AppendLine() {
+		EnsureRoomFor(2);
 		Append(L'\r');
 		return (Append(L'\n'));
 	}
 	StringBuilder* StringBuilder::AppendLine(String* value) {
+		if (value->get_Length() > maxCapacity - 2) {
+			throw new ArgumentOutOfRangeException();
+		}
+		EnsureRoomFor(value->get_Length() + 2);
 		Append(value);
 		return (AppendLine());
 	}
-- 
2.43.0


From 641ba94d84d2649580857eb64411f32875026469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 13/48] fix: raise the exceptions of the array range check

---
 DotNetLibrary/src/Array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1709b9d..580d475 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -338,13 +338,13 @@ namespace DotnetLibrary
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
 		if (array == nullptr)
-			new ArgumentNullException();
+			throw new ArgumentNullException();
 		array->EnsureSingleDimension();
 		if (amountOfElements < 0)
-			new ArgumentNullException();
+			throw new IndexOutOfRangeException();
 		if (startingIndex < 0)
-			new ArgumentNullException();
-		if ((startingIndex + amountOfElements) > array->dimension1Size)
-			new ArgumentNullException();
+			throw new IndexOutOfRangeException();
+		if (amountOfElements > array->dimension1Size - startingIndex)
+			throw new IndexOutOfRangeException();
 	}
 }
-- 
2.43.0


From a75287e1f1fa37b460ea0880a689b2a9752cdfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 14/48] fix: do not overflow in the range check of Array::Copy

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 580d475..ac2c851 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -94,7 +94,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
 			throw new ArgumentException();
-		if (sourceIndex + length > sourceArray->totalElementCount || destinationIndex + length > destinationArray->totalElementCount)
+		if (length > sourceArray->totalElementCount - sourceIndex || length > destinationArray->totalElementCount - destinationIndex)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
 			throw new RankException();
-- 
2.43.0


From a752d7ca54fd7a3d54d2bbf469538d5bb312ab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 15/48] fix: copy overlapping parts of an array correctly

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index ac2c851..e924e6b 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -103,7 +103,7 @@ namespace DotnetLibrary
 		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
 		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
 		Int32 tsz = length * elementSize;
-		memcpy(dstAddr, srcAddr, tsz);
+		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
 		if (array == nullptr)
-- 
2.43.0


From e739115509cc953e8b65274a95a4a1c944213fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 16/48] fix: reject ranks an array does not have

---
 DotNetLibrary/src/Array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index e924e6b..4577619 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -145,7 +145,7 @@ namespace DotnetLibrary
 			throw new RankException();
 	}
 	Int32 Array::GetLength(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		if (rank == 0)
 			return (dimension1Size);
@@ -156,12 +156,12 @@ namespace DotnetLibrary
 		return (-1);
 	}
 	Int32 Array::GetLowerBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (0);
 	}
 	Int32 Array::GetUpperBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
-- 
2.43.0


From ea2d5d45ce99772361605b8a8283a234c3901f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 17/48] fix: refuse to create arrays of impossible size

---
 DotNetLibrary/src/Array.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 4577619..e3a2c46 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -48,21 +48,29 @@ namespace DotnetLibrary
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
 	}
+	// Multiply the size of a part of an array; its size in bytes has to fit an Int32
+	static Int64 MultiplySizes(Int64 size, Int32 amount) {
+		if (size < 0 || amount < 0 || size * amount > Int32Value::MaxValue)
+			throw new ArgumentOutOfRangeException();
+		return (size * amount);
+	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		this->dataType = dataType;
 		this->dimension1Size = dimension1Size;
 		this->dimension2Size = dimension2Size;
 		this->dimension3Size = dimension3Size;
 		dimensionCount = 1;
-		totalElementCount = dimension1Size;
-		if (dimension2Size != -1) {
+		Int64 elementCount = MultiplySizes(dimension1Size, 1);
+		if (dimension2Size != -1 || dimension3Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension2Size;
+			elementCount = MultiplySizes(elementCount, dimension2Size);
 		}
 		if (dimension3Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension3Size;
+			elementCount = MultiplySizes(elementCount, dimension3Size);
 		}
+		MultiplySizes(elementCount, DataTypeSize[dataType]);
+		totalElementCount = (Int32) elementCount;
 	}
 	Array::~Array() {
 		if (data != nullptr)
-- 
2.43.0


From ed47b519cb2c721eba6fd0acb4569f502a1c6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 18/48] fix: do not delete platform memory wrapped in an array

---
 DotNetLibrary/include/Array.h | 1 +
 DotNetLibrary/src/Array.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index 8abf5ec..2e6d4c4 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -34,6 +34,7 @@ namespace DotnetLibrary
 		int32_t dimensionCount;			// amount of dimensions
 		int32_t totalElementCount;		// total elements in the array
 		char* data;						// point to data storage for array
+		Boolean ownsData;				// false when the data belongs to the platform
 		/*!
 		 * Compute index into 1d array from 3d indexes
 		 * @param index1 index to 1st dimension
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index e3a2c46..b1337e0 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -43,10 +43,12 @@ namespace DotnetLibrary
 	Array::Array(void* dataMemory, DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = (char*) dataMemory;
+		ownsData = false;
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
+		ownsData = true;
 	}
 	// Multiply the size of a part of an array; its size in bytes has to fit an Int32
 	static Int64 MultiplySizes(Int64 size, Int32 amount) {
@@ -73,7 +75,7 @@ namespace DotnetLibrary
 		totalElementCount = (Int32) elementCount;
 	}
 	Array::~Array() {
-		if (data != nullptr)
+		if (data != nullptr && ownsData)
 			delete data;
 		data = nullptr;
 	}
-- 
2.43.0


From d1a219417319600d8777741e4b1c4f355547b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 19/48] fix: check Buffer::BlockCopy ranges without overflow
 and allow empty copies

---
 DotNetLibrary/src/Buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 32b0ad9..de10245 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -38,8 +38,10 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		UInt32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
 		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
-		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
+		if (((UInt64) sourceLength < (UInt64) srcOffset + count) || ((UInt64) destinationLength < (UInt64) dstOffset + count))
 			throw new ArgumentException();
+		if (count == 0)
+			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
-- 
2.43.0


From bafa5cf5abcae84a5e015fee0885dd3b6833fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 20/48] fix: reject negative indexes in Buffer::GetByte and
 SetByte

---
 DotNetLibrary/src/Buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index de10245..39ed2d3 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -59,13 +59,13 @@ namespace DotnetLibrary
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From 8087f67c5c7b20bf8786d2ca149a994d745e10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 21/48] fix: convert characters from 0x8000 on to and from
 bytes unchanged

---
 DotNetLibrary/src/BitConverter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index cda6db8..63e87bd 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -88,9 +88,9 @@ namespace DotnetLibrary
 		return false;
 	}
 	Char BitConverter::ToChar(Array* value, Int32 startIndex) {
-		Int16 ret;
-		// treat Char as Int16 because on some systems Char is 4 bytes but .Net isn't
-		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int16));
+		UInt16 ret;
+		// treat Char as UInt16 because on some systems Char is 4 bytes but .Net isn't
+		PutBytes((Byte*) &ret, value, startIndex, sizeof(UInt16));
 		return (Char) ret;
 	}
 	Double BitConverter::ToDouble(Array* value, Int32 startIndex) {
-- 
2.43.0


From 73e371e7f64cd196f1c78c7225f61ead8dd82ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 22/48] fix: let strings contain NUL characters and do not read
 past the end of a part

---
 DotNetLibrary/src/StringDotNet.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 172936c..a3a5f0e 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,10 +37,10 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
-		if (length < 0)
-			length = (Int32) wcslen(string);
 		if (startIndex < 0 || startIndex > wcslen(string))
 			throw new ArgumentOutOfRangeException();
+		if (length < 0)
+			length = (Int32) wcslen(string) - startIndex;
 
 		allocate = true;
 		this->length = length;
@@ -242,7 +242,7 @@ namespace DotnetLibrary
 		if (str == nullptr || str2 == nullptr || str->get_Length() != str2->get_Length()) {
 			return true;
 		}
-		return wcscmp(str->get_Buffer(), str2->get_Buffer()) != 0;
+		return memcmp(str->get_Buffer(), str2->get_Buffer(), str->get_Length() * sizeof(Char)) != 0;
 	}
 	Boolean String::Equals(Object* object) {
 		if (object == nullptr || object->GetRawDataType() != StringType)
@@ -538,7 +538,7 @@ namespace DotnetLibrary
 		if (startIndex == 0 && length == get_Length()) {
 			return this;
 		}
-		return (new String(this->characterData, startIndex, length));
+		return (new String(this->characterData + startIndex, 0, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
@@ -640,7 +640,7 @@ namespace DotnetLibrary
 				}
 			}
 		}
-		return (new String(get_Buffer(), start, (end - start) + 1));
+		return (new String(get_Buffer() + start, 0, (end - start) + 1));
 	}
 	Boolean String::IsWhiteSpace(Char value, Char* separators, Int32 separatorSize) {
 		for (Int32 i = 0; i < separatorSize; ++i) {
-- 
2.43.0


From fdd23b3cf26a81bc00b3ab5020ae72cdf5e5d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 23/48] fix: construct a string from a null array

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index a3a5f0e..bd9f4d2 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 	}
 	String::String(Array* values, Int32 startIndex, Int32 length) {
 		allocate = true;
-		if (length < 0) {
+		if (length < 0 && values != nullptr) {
 			length = values->get_Length();
 		}
 		if (values == nullptr || length == 0) {
-- 
2.43.0


From 9c944ff30bad4ef438e292f5ebb62684d2d5920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 24/48] fix: compare strings by their whole text within their
 bounds

---
 DotNetLibrary/src/StringDotNet.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index bd9f4d2..de5b0d5 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -125,24 +125,35 @@ namespace DotnetLibrary
 						return (-1);
 				}
 			}
-			if (c1 == L'\0' || c1 != c2)
+			if (c1 != c2)
 				return c1 > c2 ? 1 : (c1 < c2 ? -1 : 0);
 			--length;
 		}
 		return 0;
 	}
+	// Compare at most length characters of two strings; when one ends first it is the smaller one
+	static Int32 CompareParts(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length, Boolean ignoreCase, Boolean doOrdinal) {
+		if (length < 0 || index1 < 0 || index1 > s1->get_Length() || index2 < 0 || index2 > s2->get_Length())
+			throw new ArgumentOutOfRangeException();
+		Int32 length1 = Math::Min(length, s1->get_Length() - index1);
+		Int32 length2 = Math::Min(length, s2->get_Length() - index2);
+		Int32 result = String::Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, Math::Min(length1, length2), ignoreCase, doOrdinal);
+		if (result == 0 && length1 != length2)
+			result = length1 > length2 ? 1 : -1;
+		return (result);
+	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), ignoreCase, false));
+		return (CompareParts(s1, 0, s2, 0, Math::Max(s1->get_Length(), s2->get_Length()), ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
+		return (CompareParts(s1, index1, s2, index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), false, true));
+		return (CompareParts(s1, 0, s2, 0, Math::Max(s1->get_Length(), s2->get_Length()), false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
+		return (CompareParts(s1, index1, s2, index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
 		if (value == nullptr)
-- 
2.43.0


From d35997cfc0db0e43a4d3de6ddeccdb9f6cb2bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 25/48] fix: return the result of String::CompareTo(Object)

---
 DotNetLibrary/src/StringDotNet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index de5b0d5..5f2acbe 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -160,8 +160,7 @@ namespace DotnetLibrary
 			return (1);
 		if (value->GetRawDataType() != StringType)
 			throw new ArgumentException();
-		CompareTo((String*) value);
-		return Int32();
+		return CompareTo((String*) value);
 	}
 	Int32 String::CompareTo(String* str) {
 		if (str == nullptr)
-- 
2.43.0


From b2c7c1b80b56fd3fcba8c907b879b9a7aa4ff040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 26/48] fix: check element types, null elements and ranges in
 String::Concat and Join

---
 DotNetLibrary/src/StringDotNet.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 5f2acbe..49f9518 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -171,11 +171,14 @@ namespace DotnetLibrary
 		if (nullptr == values)
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		StringBuilder sb;
-		for (int i = 0; i < values->get_Length(); ++i)
-			sb.Append(*(Object**) values->Address(i));
+		for (int i = 0; i < values->get_Length(); ++i) {
+			Object* value = *(Object**) values->Address(i);
+			if (value != nullptr)
+				sb.Append(value);
+		}
 		return (sb.ToString());
 	}
 	String* String::Concat(Object* o1, Object* o2, Object* o3, Object* o4, Object* o5, Object* o6, Object* o7) {
@@ -378,9 +381,9 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
@@ -393,7 +396,9 @@ namespace DotnetLibrary
 			if (!isFirst)
 				sb.Append(separator);
 			isFirst = false;
-			sb.Append(*(Object**) values->Address(i));
+			Object* value = *(Object**) values->Address(i);
+			if (value != nullptr)
+				sb.Append(value);
 		}
 		return (sb.ToString());
 	}
@@ -405,9 +410,9 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
@@ -420,7 +425,9 @@ namespace DotnetLibrary
 			if (!isFirst)
 				sb.Append(separator);
 			isFirst = false;
-			sb.Append(*(Object**) values->Address(i));
+			Object* value = *(Object**) values->Address(i);
+			if (value != nullptr)
+				sb.Append(value);
 		}
 		return (sb.ToString());
 	}
-- 
2.43.0


From bc037215587f1983d8059292e06e4da2e5ee0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 27/48] fix: handle empty and longer texts in Contains,
 StartsWith and EndsWith

---
 DotNetLibrary/src/StringDotNet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 49f9518..d39ae16 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -201,6 +201,8 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	Boolean String::Contains(String* substring) {
+		if (substring->get_Length() == 0)
+			return true;
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(substring, 0, length) != 0);
 	}
@@ -239,6 +241,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);
 	}
@@ -533,6 +538,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);
 	}
-- 
2.43.0


From 1d3fd4b2c67b22bb1cdf5cc358f9d0877e89428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 28/48] fix: allow String::CopyTo to copy nothing at the end

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index d39ae16..176948b 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -225,6 +225,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
 			throw new ArgumentNullException();
+		if (count == 0)
+			return;
 		Char* source = Address(sourceIndex);
 		Char* dest = (Char*) destination->Address(destinationIndex);
 		for (int i = 0; i < count; ++i) {
-- 
2.43.0


From d26c414cbd562c896d9a11bf8e9ed9c9e0b63ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 29/48] fix: search only the requested range in String::IndexOf

---
 DotNetLibrary/src/StringDotNet.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 176948b..ffe7c05 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -295,6 +295,8 @@ namespace DotnetLibrary
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
+		if (startIndex < 0 || count < 0)
+			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
 		Int32 endIndex = startIndex + count;
@@ -321,12 +323,12 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
-		Char* found = wcsstr(get_Buffer() + startIndex, value->get_Buffer());
-		if (found == nullptr)
-			return (-1);
-		Int32 delta = found - get_Buffer();
-		Int32 endIndex = startIndex + count;
-		return (delta > endIndex ? -1 : delta);
+		Int32 endIndex = startIndex + count - value->get_Length();
+		for (Int32 index = startIndex; index <= endIndex; ++index) {
+			if (memcmp(get_Buffer() + index, value->get_Buffer(), value->get_Length() * sizeof(Char)) == 0)
+				return (index);
+		}
+		return (-1);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
-- 
2.43.0


From f05b6a69fa4c2043199598428e4fbdb7b441c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 30/48] fix: search only the requested range in
 String::LastIndexOf

---
 DotNetLibrary/src/StringDotNet.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index ffe7c05..2f29a73 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -445,6 +445,8 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex >= Math::Max(length, 1) || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -459,14 +461,12 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex >= Math::Max(length, 1) || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
-		for (Int32 i = startIndex; i > endIndex; --i) {
-			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
-			if (found != nullptr) {
-				Int32 delta = found - get_Buffer();
-				if (delta <= startIndex)
-					return (delta);
-			}
+		for (Int32 i = startIndex - value->get_Length() + 1; i > endIndex; --i) {
+			if (memcmp(get_Buffer() + i, value->get_Buffer(), value->get_Length() * sizeof(Char)) == 0)
+				return (i);
 		}
 		return -1;
 	}
@@ -477,6 +477,8 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex >= Math::Max(length, 1) || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
-- 
2.43.0


From 476bc17138c514e33178a7048226f9a0cdf0ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 31/48] fix: do not write behind the end of a text buffer

---
 DotNetLibrary/src/StringDotNet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 2f29a73..714551f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -687,9 +687,12 @@ namespace DotnetLibrary
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
+		if (whereSize <= 0)
+			return;
 		if (sourceSize > whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
-		where[sourceSize] = 0;
+		if (sourceSize < whereSize)
+			where[sourceSize] = 0;
 	}
 }
-- 
2.43.0


From 3e6549b7e48708b4668e183a36707c30a86018c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 32/48] fix: TimeSpan subtraction overflows only when the
 result does not fit

---
 DotNetLibrary/src/TimeSpanValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ea2841b..a74fc04 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -89,7 +89,7 @@ namespace DotnetLibrary
 		return value;
 	}
 	TimeSpan TimeSpanValue::Add(const TimeSpan& ts) {
-		Int64 result = value.value + ts.value;
+		Int64 result = (Int64) ((UInt64) value.value + (UInt64) ts.value);
 		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
@@ -241,8 +241,8 @@ namespace DotnetLibrary
 		return (results);
 	}
 	TimeSpan TimeSpanValue::Subtract(const TimeSpan& ts) {
-		Int64 result = value.value - ts.value;
-		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
+		Int64 result = (Int64) ((UInt64) value.value - (UInt64) ts.value);
+		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
-- 
2.43.0


From f46c50ccbb33ead0c21759df0e48ba993bf2229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 33/48] fix: TimeSpan limits are the signed 64-bit limits, so a
 zero TimeSpan can be negated

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index a74fc04..a44ea6b 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -20,8 +20,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(UInt64Value::MaxValue);
-	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(UInt64Value::MinValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(0x7fffffffffffffffLL);
+	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(-0x7fffffffffffffffLL - 1);
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMillisecond = 10000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerSecond = TicksPerMillisecond * 1000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMinute = TicksPerSecond * 60;
-- 
2.43.0


From 1620293faab87541548b235cda92b255cd7be3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 34/48] fix: reject a TimeSpan text with more than four numbers
 instead of overrunning the parse buffer

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index a44ea6b..a3688f9 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -268,6 +268,10 @@ namespace DotnetLibrary
 				break;
 			if (CharValue::IsDigit(chars[1]))
 				digits = 2;
+			if (amount == 4) {
+				result = TimeSpan();
+				return false;
+			}
 			UInt64Value::TryParseInternal(chars, digits, number, sign);
 			numbers[amount++] = (Int64) number;
 			chars += digits + 1;
-- 
2.43.0


From 615d10d7a8519baba0c52878d26b163b8dd16352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 35/48] fix: a malformed Double or Single text does not parse
 to leftover stack contents

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 DotNetLibrary/src/SingleValue.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4cf23b1..9b33528 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -136,7 +136,7 @@ namespace DotnetLibrary
 		return fmod(v1, v2);
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
-		Double rtn;
+		Double rtn = 0;
 		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
 		return (rtn);
 	}
@@ -163,7 +163,7 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Double rtn;
+		Double rtn = 0;
 		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
 		result = rtn;
 		return (gotNumber);
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 124ea53..0d7bd7e 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -143,7 +143,7 @@ namespace DotnetLibrary
 		return fmod(v1, v2);
 	}
 	Single SingleValue::Parse(String* stringToParse) {
-		Single rtn;
+		Single rtn = 0;
 		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
 		return (rtn);
 	}
@@ -170,7 +170,7 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Single rtn;
+		Single rtn = 0;
 		gotNumber = swscanf(source, L"%G", &rtn) == 1;
 		result = rtn;
 		return (gotNumber);
-- 
2.43.0


From 46c06ade065fb6edb76cbf9a30440f36d70003d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 36/48] fix: dividing the smallest integer by -1 raises
 OverflowException; 64-bit DivRem keeps its quotient

---
 DotNetLibrary/src/DotNetMath.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 49624bd..b97038a 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -256,6 +256,8 @@ namespace DotnetLibrary
 	Int64 Math::Divide(Int64 v1, Int64 v2) {
 		if (v2 == 0)
 			throw new DivideByZeroException();
+		if (v2 == -1 && v1 == Int64Value::MinValue)
+			throw new OverflowException();
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
@@ -269,6 +271,8 @@ namespace DotnetLibrary
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (b == -1 && a == Int32Value::MinValue)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
@@ -276,7 +280,9 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
-		Int32 div = a / b;
+		if (b == -1 && a == Int64Value::MinValue)
+			throw new OverflowException();
+		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
 	}
-- 
2.43.0


From 7924649db4385b75ea0a9251a994ee5ca59528c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 37/48] fix: convert between UTC and local time with the zone's
 offset at the converted time

---
 DotNetLibrary/include/DateTimeValue.h | 12 +++++--
 DotNetLibrary/src/DateTimeValue.cpp   | 46 +++++++++++++++++++++------
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/DotNetLibrary/include/DateTimeValue.h b/DotNetLibrary/include/DateTimeValue.h
index 67a520a..e0e0cee 100644
--- a/DotNetLibrary/include/DateTimeValue.h
+++ b/DotNetLibrary/include/DateTimeValue.h
@@ -80,9 +80,17 @@ namespace DotnetLibrary
 
 		/*!
 		 * Get Time zone as TimeSpan
-		 * @return Time zone delta as TimeSpan
+		 * @param utcTicks instant, in UTC
+		 * @param isDaylightSaving set if daylight saving is in force at that instant
+		 * @return Time zone delta at that instant as TimeSpan
 		 */
-		TimeSpan GetTimeZone();
+		static TimeSpan GetTimeZone(Int64 utcTicks, Boolean& isDaylightSaving);
+		/*!
+		 * Get Time zone as TimeSpan, taking this value as local time
+		 * @param isDaylightSaving set if daylight saving is in force at that local time
+		 * @return Time zone delta at that local time as TimeSpan
+		 */
+		TimeSpan GetTimeZoneOfLocal(Boolean& isDaylightSaving);
 	public:
 		DateTimeValue() {
 			value = 0;
diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 58f5034..24170a5 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -304,28 +304,54 @@ namespace DotnetLibrary
 		return ToLocalTime(false);
 	}
 
-	TimeSpan DateTimeValue::GetTimeZone() {
+	TimeSpan DateTimeValue::GetTimeZone(Int64 utcTicks, Boolean& isDaylightSaving) {
+		// zones are only looked up where the local date surely has a year from 1 to 9999
+		if (utcTicks < TicksPerDay)
+			utcTicks = TicksPerDay;
+		if (utcTicks > MaxTicks - TicksPerDay)
+			utcTicks = MaxTicks - TicksPerDay;
+		Int64 utcSeconds = utcTicks / TicksPerSecond;
+		time_t rawTime = (time_t) (utcSeconds - (Int64) DaysTo1970 * 24 * 3600);
+		struct tm timeinfo;
 #ifdef WIN32
 		_tzset();
+		struct tm* localInfo = localtime(&rawTime);
+		if (localInfo != nullptr)
+			timeinfo = *localInfo;
 #else
 		tzset();
+		struct tm* localInfo = localtime_r(&rawTime, &timeinfo);
 #endif
-		time_t rawTime = time(nullptr);
-		struct tm* utcInfo = gmtime(&rawTime);
-		int gmHour = utcInfo->tm_hour;
-		struct tm* localInfo = localtime(&rawTime);
-		int lcHour = localInfo->tm_hour;
-		TimeSpan ts = TimeSpan(lcHour - gmHour, 0, 0);
-		return ts;
+		if (localInfo == nullptr)
+			throw new ArgumentOutOfRangeException();
+		isDaylightSaving = timeinfo.tm_isdst > 0;
+		Int64 localSeconds = DateToTicks(timeinfo.tm_year + 1900, timeinfo.tm_mon + 1, timeinfo.tm_mday) / TicksPerSecond
+		                + timeinfo.tm_hour * 3600 + timeinfo.tm_min * 60 + timeinfo.tm_sec;
+		return TimeSpan((localSeconds - utcSeconds) * TicksPerSecond);
+	}
+	TimeSpan DateTimeValue::GetTimeZoneOfLocal(Boolean& isDaylightSaving) {
+		// the offsets in force before and after any change of the zone's rule near this local time
+		Boolean dstBefore;
+		Boolean dstAfter;
+		TimeSpan before = GetTimeZone(value.value - TicksPerDay, dstBefore);
+		TimeSpan after = GetTimeZone(value.value + TicksPerDay, dstAfter);
+		// a local time that occurs twice is the later one, one that is skipped counts from before the change
+		TimeSpan offset = GetTimeZone(value.value - after.value, isDaylightSaving);
+		if (offset.value == after.value)
+			return after;
+		isDaylightSaving = dstBefore;
+		return before;
 	}
 
 	DateTime DateTimeValue::ToLocalTime(Boolean throwOnOverflow) {
-		TimeSpan ts = GetTimeZone();
+		Boolean isDaylightSaving;
+		TimeSpan ts = GetTimeZone(value.value, isDaylightSaving);
 		DateTime rtn = Add(ts);
 		return (rtn.value);
 	}
 	DateTime DateTimeValue::ToUniversalTime() {
-		TimeSpan ts = GetTimeZone();
+		Boolean isDaylightSaving;
+		TimeSpan ts = GetTimeZoneOfLocal(isDaylightSaving);
 		DateTime rtn = Subtract(ts);
 		return (rtn.value);
 	}
-- 
2.43.0


From dde6801f5eebc34830689f1f262c0b7af1d9dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 38/48] fix: daylight saving of a date-time no longer depends
 on stack contents or earlier calls

---
 DotNetLibrary/src/DateTimeValue.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 24170a5..76aa5b4 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -246,16 +246,9 @@ namespace DotnetLibrary
 		return false;
 	}
 	Boolean DateTimeValue::IsDaylightSavingTime() {
-		time_t rawtime;
-		struct tm timeinfo;
-		timeinfo.tm_hour = get_Hour();
-		timeinfo.tm_mday = get_Day();
-		timeinfo.tm_min = get_Minute();
-		timeinfo.tm_mon = get_Month() - 1;
-		timeinfo.tm_sec = get_Second();
-		timeinfo.tm_year = get_Year() - 1900;
-		rawtime = mktime(&timeinfo);
-		return (timeinfo.tm_isdst != 0);
+		Boolean isDaylightSaving;
+		GetTimeZoneOfLocal(isDaylightSaving);
+		return isDaylightSaving;
 	}
 	Boolean DateTimeValue::IsLeapYear(Int32 year) {
 		if (year < 1 || year > 9999) {
-- 
2.43.0


From 2c6546f86ffab384c765843cb4d6ace76094ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 39/48] fix: formatting a date-time uses the size of its own
 buffer, not the caller's

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 76aa5b4..6240dcb 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -273,7 +273,7 @@ namespace DotnetLibrary
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #else
-		Int32 length = swprintf(dateTime, whereSize, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
+		Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #endif
 		stringBuilder.Append(dateTime, length);
 		if (isPm)
-- 
2.43.0


From a4ca09302d4778bf18d8bda25486c3cb9ade61b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 40/48] fix: String::LastIndexOf in an empty string finds
 nothing

---
 DotNetLibrary/src/StringDotNet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 714551f..612d5bf 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -447,6 +447,8 @@ namespace DotnetLibrary
 			count = startIndex + 1;
 		if (startIndex >= Math::Max(length, 1) || count > startIndex + 1)
 			throw new ArgumentOutOfRangeException();
+		if (length == 0)
+			return (-1);
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -463,6 +465,8 @@ namespace DotnetLibrary
 			count = startIndex + 1;
 		if (startIndex >= Math::Max(length, 1) || count > startIndex + 1)
 			throw new ArgumentOutOfRangeException();
+		if (length == 0)
+			return (value->get_Length() == 0 ? 0 : -1);
 		Int32 endIndex = startIndex - count;
 		for (Int32 i = startIndex - value->get_Length() + 1; i > endIndex; --i) {
 			if (memcmp(get_Buffer() + i, value->get_Buffer(), value->get_Length() * sizeof(Char)) == 0)
@@ -482,6 +486,8 @@ namespace DotnetLibrary
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
+		if (length == 0)
+			return (-1);
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			for (Int32 arrayIndex = 0; arrayIndex < arr->get_Length(); ++arrayIndex) {
-- 
2.43.0


From ef0df80b723979ec70bb7d151b9f69d8eb872e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 41/48] fix: Equals of the integer and Char values with a null
 reference is false, not a crash

---
 DotNetLibrary/src/ByteValue.cpp   | 2 +-
 DotNetLibrary/src/CharValue.cpp   | 2 +-
 DotNetLibrary/src/Int16Value.cpp  | 2 +-
 DotNetLibrary/src/Int32Value.cpp  | 2 +-
 DotNetLibrary/src/Int64Value.cpp  | 2 +-
 DotNetLibrary/src/SByteValue.cpp  | 2 +-
 DotNetLibrary/src/UInt16Value.cpp | 2 +-
 DotNetLibrary/src/UInt32Value.cpp | 2 +-
 DotNetLibrary/src/UInt64Value.cpp | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 1ae217b..f4a13ba 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -70,7 +70,7 @@ namespace DotnetLibrary
 		return value - ((ByteValue*) valueToCompare)->value;
 	}
 	Boolean ByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != ByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != ByteType) {
 			return false;
 		}
 		return value == ((ByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 54ee3d7..fe95949 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -68,7 +68,7 @@ namespace DotnetLibrary
 		return value - ((CharValue*) valueToCompare)->value;
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != CharType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
 			return false;
 		}
 		return value == ((CharValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 3fee63f..fdea7b4 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -71,7 +71,7 @@ namespace DotnetLibrary
 		return value - ((Int16Value*) valueToCompare)->value;
 	}
 	bool Int16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int16Type) {
 			return false;
 		}
 		return value == ((Int16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0842810..8fed08c 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((Int32Value*) valueToCompare)->value;
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
 			return false;
 		}
 		return value == ((Int32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 8390042..0a00956 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((Int64Value*) valueToCompare)->value;
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
 			return false;
 		}
 		return value == ((Int64Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index ad69a9b..c983f7f 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((SByteValue*) valueToCompare)->value;
 	}
 	bool SByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != SByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != SByteType) {
 			return false;
 		}
 		return value == ((SByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index aa9bf35..31819dc 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt16Value*) valueToCompare)->value;
 	}
 	bool UInt16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt16Type) {
 			return false;
 		}
 		return value == ((UInt16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a1aebf7..deff1df 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt32Value*) valueToCompare)->value;
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
 			return false;
 		}
 		return value == ((UInt32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d94cd1e..63da17b 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt64Value*) valueToCompare)->value;
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
 			return false;
 		}
 		return value == ((UInt64Value*) valueToCompare)->value;
-- 
2.43.0


From 95c4c29cafdb64408490dcf29824a951dae99d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 42/48] fix: parsing a null string to Double or Single raises
 instead of crashing

---
 DotNetLibrary/src/DoubleValue.cpp | 2 ++
 DotNetLibrary/src/SingleValue.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 9b33528..f2464e1 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -136,6 +136,8 @@ namespace DotnetLibrary
 		return fmod(v1, v2);
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
+		if (stringToParse == nullptr)
+			throw new ArgumentNullException();
 		Double rtn = 0;
 		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
 		return (rtn);
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 0d7bd7e..d66373f 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -143,6 +143,8 @@ namespace DotnetLibrary
 		return fmod(v1, v2);
 	}
 	Single SingleValue::Parse(String* stringToParse) {
+		if (stringToParse == nullptr)
+			throw new ArgumentNullException();
 		Single rtn = 0;
 		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
 		return (rtn);
-- 
2.43.0


From 7d6d14a3cd8b3fb407845f2a08bac76cbfcb1394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 43/48] fix: local times within a daylight saving period of
 less than two days use its offset

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 6240dcb..ef80f53 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -332,6 +332,9 @@ namespace DotnetLibrary
 		TimeSpan offset = GetTimeZone(value.value - after.value, isDaylightSaving);
 		if (offset.value == after.value)
 			return after;
+		// daylight saving may also begin and end within these two days
+		if (GetTimeZone(value.value - offset.value, isDaylightSaving).value == offset.value)
+			return offset;
 		isDaylightSaving = dstBefore;
 		return before;
 	}
-- 
2.43.0


From d37d758ade2c82ec225ce5c4169f49e13e682e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:34 +0000
Subject: [PATCH 44/48] fix: date parts of a tick count beyond the last date
 read outside the month table

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index ef80f53..6196002 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -124,7 +124,7 @@ namespace DotnetLibrary
 		return Add(delta, MillisPerMinute);
 	}
 	void DateTimeValue::GetDatePart(Int32& year, Int32& month, Int32& day) {
-		Int64 ticks = value.value;
+		UInt64 ticks = value.value;
 		// n = number of days since 1/1/0001
 		Int32 n = (Int32) (ticks / TicksPerDay);
 		// y400 = number of whole 400-year periods since 1/1/0001
-- 
2.43.0


From 075c1d1de38f2ed86f016a1cc94044a7d13d87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:01 +0000
Subject: [PATCH 45/48] fix: set the result of Single and Double TryParse when
 the text is null

---
 DotNetLibrary/src/DoubleValue.cpp | 1 +
 DotNetLibrary/src/SingleValue.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index f2464e1..271450f 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -145,6 +145,7 @@ namespace DotnetLibrary
 	Boolean DoubleValue::TryParse(String* source, Double& result) {
 		Boolean goodNumber = true;
 		Double value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index d66373f..5ce702c 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -152,6 +152,7 @@ namespace DotnetLibrary
 	Boolean SingleValue::TryParse(String* source, Single& result) {
 		Boolean goodNumber = true;
 		Single value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
-- 
2.43.0


From c35ba1263f6b6fec2eb83fa90d4d6e16d72cdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:17 +0000
Subject: [PATCH 46/48] fix: GetBaseException returns the first exception of
 the chain, or the exception itself

---
 DotNetLibrary/include/Exception.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 2cb8900..5f144f6 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -73,7 +73,10 @@ namespace DotnetLibrary
 		 * @return base exception
 		 */
 		Exception* GetBaseException() {
-			return (innerException);
+			Exception* base = this;
+			while (base->innerException != nullptr)
+				base = base->innerException;
+			return (base);
 		}
 		/*!
 		 * Get raw type of this boxed object
-- 
2.43.0


From b0ebae2d889510b9f3b762ca4c88217a48daeb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:38 +0000
Subject: [PATCH 47/48] fix: storing an object that is no string into an array
 of strings raises

---
 DotNetLibrary/src/Array.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index b1337e0..90073d0 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -283,6 +283,8 @@ namespace DotnetLibrary
 				*((Object**) addr) = value;
 				break;
 			case StringType:
+				if (value->GetRawDataType() != StringType)
+					throw new InvalidCastException();
 				*((Object**) addr) = value;
 				break;
 			case BooleanType:
-- 
2.43.0


From 65ee2269464ad40e04ea043cb242d24d609a5fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:39 +0000
Subject: [PATCH 48/48] fix: indexes passed in an array of another type were
 read past its elements

---
 DotNetLibrary/src/Array.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 90073d0..d2041ad 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -175,6 +175,18 @@ namespace DotnetLibrary
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
+	// Get one of the indexes in an array of Int32 or Int64
+	static Int32 IndexFromArray(Array* indexes, Int32 position) {
+		void* address = indexes->Address(position);
+		if (indexes->GetElementType() == Int32Type)
+			return (*(Int32*) address);
+		if (indexes->GetElementType() != Int64Type)
+			throw new ArgumentException();
+		Int64 index = *(Int64*) address;
+		if (index != (Int32) index)
+			throw new ArgumentOutOfRangeException();
+		return ((Int32) index);
+	}
 	Object* Array::GetValue(Array* indexes) {
 		if (indexes == nullptr)
 			throw new ArgumentNullException;
@@ -184,9 +196,9 @@ namespace DotnetLibrary
 			throw new NotImplementedException();
 		if (arraySize == 0)
 			return (nullptr);
-		Int32 index1 = *(Int32*) indexes->Address(0, -1, -1);
-		Int32 index2 = arraySize > 1 ? *(Int32*) indexes->Address(1, -1, -1) : -1;
-		Int32 index3 = arraySize > 2 ? *(Int32*) indexes->Address(2, -1, -1) : -1;
+		Int32 index1 = IndexFromArray(indexes, 0);
+		Int32 index2 = arraySize > 1 ? IndexFromArray(indexes, 1) : -1;
+		Int32 index3 = arraySize > 2 ? IndexFromArray(indexes, 2) : -1;
 		return (GetValue(index1, index2, index3));
 	}
 	Object* Array::GetValue(Int32 index1, Int32 index2, Int32 index3) {
@@ -343,9 +355,9 @@ namespace DotnetLibrary
 			throw new NotImplementedException();
 		if (arraySize == 0)
 			return;
-		Int32 index1 = *(Int32*) indexes->Address(0, -1, -1);
-		Int32 index2 = arraySize > 1 ? *(Int32*) indexes->Address(1, -1, -1) : -1;
-		Int32 index3 = arraySize > 2 ? *(Int32*) indexes->Address(2, -1, -1) : -1;
+		Int32 index1 = IndexFromArray(indexes, 0);
+		Int32 index2 = arraySize > 1 ? IndexFromArray(indexes, 1) : -1;
+		Int32 index3 = arraySize > 2 ? IndexFromArray(indexes, 2) : -1;
 		SetValue(value, index1, index2, index3);
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
-- 
2.43.0

