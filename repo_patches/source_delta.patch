From eeab2f5397b37f269eb90863a5e2283982880f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 01/84] fix: UCS4Digit never reached the ideographic zero and
 Hangzhou numerals

---
 src/char_encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/char_encoding.cpp b/src/char_encoding.cpp
index 5070720..29fb87d 100644
--- a/src/char_encoding.cpp
+++ b/src/char_encoding.cpp
@@ -115,7 +115,7 @@ UCS4Digit(UCS4 ch)
 	)
 	{
 		if (ch < rp->low)
-			return -1;		/* Short circuit */
+			break;			/* Short circuit */
 		if (ch <= rp->high)
 		{
 			last_memo = rp-UCS4_DigitRanges;
-- 
2.43.0


From 84e68da9fef3eb0b2dcbbdf391f9f3a4415314e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 02/84] fix: UCS4ToTitle converted the title case digraphs to
 upper case

---
 src/case_conversions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/case_conversions.c b/src/case_conversions.c
index 6a434bc..a3e9101 100644
--- a/src/case_conversions.c
+++ b/src/case_conversions.c
@@ -834,12 +834,16 @@ static struct
 } UnicodeToTitle[] =
 {
       {	0x01C4,	1 },
+      {	0x01C5,	0 },
       {	0x01C6,	-1 },
       {	0x01C7,	1 },
+      {	0x01C8,	0 },
       {	0x01C9,	-1 },
       {	0x01CA,	1 },
+      {	0x01CB,	0 },
       {	0x01CC,	-1 },
       {	0x01F1,	1 },
+      {	0x01F2,	0 },
       {	0x01F3,	-1 }
 };
 #define	UCS4NumTitleChars (sizeof(UnicodeToTitle)/sizeof(UnicodeToTitle[0]))
-- 
2.43.0


From dad25a77c44d28c8f200aa00b4f43e295334e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 03/84] fix: UTF8Len read past the Nul that truncates a UTF-8
 sequence

---
 include/char_encoding.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bc3f613..82a8150 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -155,17 +155,19 @@ UTF8CorrectLen(UTF8 c)
 inline int
 UTF8Len(const UTF8* cp)	// REVISIT: Add an error callback pointer here?
 {
-	switch (int len = UTF8CorrectLen(*cp))
+	const UTF8*	sp = cp;
+	int		len = UTF8CorrectLen(*cp);
+	switch (len)	// Look at the bytes in order, so we never go past a Nul
 	{	// This reminds me of Duff's Device :)
-	case 6: if (UTF8Is1st(cp[5])) goto illegal;
+	case 6: if (UTF8Is1st(*++sp)) goto illegal;
 		// Fall through
-	case 5: if (UTF8Is1st(cp[4])) goto illegal;
+	case 5: if (UTF8Is1st(*++sp)) goto illegal;
 		// Fall through
-	case 4: if (UTF8Is1st(cp[3])) goto illegal;
+	case 4: if (UTF8Is1st(*++sp)) goto illegal;
 		// Fall through
-	case 3: if (UTF8Is1st(cp[2])) goto illegal;
+	case 3: if (UTF8Is1st(*++sp)) goto illegal;
 		// Fall through
-	case 2: if (UTF8Is1st(cp[1])) goto illegal;
+	case 2: if (UTF8Is1st(*++sp)) goto illegal;
 		// Fall through
 	case 1:
 		return len;
-- 
2.43.0


From 06e730863ae5cf1e253e8622b3a1667272ff70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 04/84] fix: UTF8Backup took the bytes of a truncated UTF-8
 sequence as one character

---
 include/char_encoding.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 82a8150..206ae7b 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -251,8 +251,9 @@ UTF8Backup(const UTF8* cp, const UTF8* limit = 0)
 	for (const UTF8* sp = cp-1; sp >= limit; --sp)	// Backup to the limit
 		if (UTF8Is1st(*sp))			// Found the start char
 		{
-			if (UTF8CorrectLen(*sp) >= cp-sp)
-				return sp;		// Legal prefix (at least) of a UTF8 sequence
+			if (UTF8CorrectLen(*sp) == cp-sp	// A UTF8 sequence that ends here
+			 || (UTF8CorrectLen(*sp) > cp-sp && UTF8Len(sp) > cp-sp)) // or that includes this point
+				return sp;
 			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
 		}
 	return cp-1;	// No start char (valid 1st byte) found
-- 
2.43.0


From dd9c3b217c00af3c8e12fdb9da61b07f239a1a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 05/84] fix: NulGuardedCharPtr moved forwards when asked to
 back up

---
 include/char_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 182c29c..db91256 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -71,7 +71,7 @@ public:
 	NulGuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance slowly
-				if (i < 0) s -= i;		// Or backup suddenly
+				if (i < 0) s += i;		// Or backup suddenly
 				data = s; return *this;
 			}
 	NulGuardedCharPtr	operator+(int i){ NulGuardedCharPtr t(*this); t += i; return t; }
-- 
2.43.0


From 02dd8bb70f185d936d2113d368c534e0b6d7cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 06/84] fix: GuardedCharPtr could pass the Nul, and back up
 before its origin

---
 include/char_ptr.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index db91256..173d812 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -109,12 +109,32 @@ public:
 	GuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance
-				if (-i > s-origin)	// Or backup
-					s = origin;	// Either return as far as the origin
-				else
-					s += i;		// or backup as far as requested
+				if (i < 0)			// Or backup
+				{
+					if (-(long)i > s-origin)
+						s = origin;	// Either return as far as the origin
+					else
+						s += i;		// or backup as far as requested
+				}
 				data = s; return *this;
 			}
+	GuardedCharPtr	operator+(int i){ GuardedCharPtr t(*this); t += i; return t; }
+	GuardedCharPtr	operator-=(int i){ return *this += -i; }
+	GuardedCharPtr	operator-(int i){ GuardedCharPtr t(*this); t += -i; return t; }
+
+	// incr/decr functions:
+	GuardedCharPtr&	preincr()	{ NulGuardedCharPtr::preincr(); return *this; }
+	GuardedCharPtr	postincr()	{ GuardedCharPtr save(*this); ++*this; return save; }
+	GuardedCharPtr&	predecr()	{ if (!at_bot()) data--; return *this; }
+	GuardedCharPtr	postdecr()	{ GuardedCharPtr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedCharPtr	operator++(int)	{ return postincr(); }
+	GuardedCharPtr&	operator++()	{ return preincr(); }
+	GuardedCharPtr	operator--(int)	{ return postdecr(); }
+	GuardedCharPtr&	operator--()	{ return predecr(); }
+	long		operator-(GuardedCharPtr s)	{ return data-s.data; }
+	long		operator-(const char* s)	{ return data-s; }
 };
 
 #endif
-- 
2.43.0


From d1fb104ef3da0a6480c4e7e009c15a3b02cb5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 07/84] fix: GuardedUTF8Ptr operators could back up before its
 origin

---
 include/utf8_ptr.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9aa9968..35dc3c7 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -80,10 +80,27 @@ public:
 	GuardedUTF8Ptr&	operator+=(int i)
 			{	const UTF8* s = data;
 				while (i > 0 && *s != '\0') { UTF8Get(s); i--;}		// Advance
-				while (i < 0 && s > origin) { s = UTF8Backup(s); i++;}	// Or backup
+				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
-	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data)); return *this; }
+	GuardedUTF8Ptr	operator+(int i){ GuardedUTF8Ptr t(*this); t += i; return t; }
+	GuardedUTF8Ptr	operator-=(int i){ return *this += -i; }
+	GuardedUTF8Ptr	operator-(int i){ GuardedUTF8Ptr t(*this); t += -i; return t; }
+
+	// incr/decr functions:
+	GuardedUTF8Ptr&	preincr()	{ NulGuardedUTF8Ptr::preincr(); return *this; }
+	GuardedUTF8Ptr	postincr()	{ GuardedUTF8Ptr save(*this); ++*this; return save; }
+	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data, origin)); return *this; }
+	GuardedUTF8Ptr	postdecr()	{ GuardedUTF8Ptr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedUTF8Ptr	operator++(int)	{ return postincr(); }
+	GuardedUTF8Ptr&	operator++()	{ return preincr(); }
+	GuardedUTF8Ptr	operator--(int)	{ return postdecr(); }
+	GuardedUTF8Ptr&	operator--()	{ return predecr(); }
+	long		operator-(GuardedUTF8Ptr s)	{ return data-s.data; }
+	long		operator-(const char* cp)	{ return data-cp; }
+
 	bool		at_bot()
 			{ return data == origin; }
 };
-- 
2.43.0


From 14b2b3db70d629961370473d2ddd7102c01bd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 08/84] fix: UTF-8 pointer took an overlong encoded zero as the
 end of the text

---
 include/utf8_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 35dc3c7..9450b01 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -23,7 +23,7 @@ public:
 			{ data = s.data; return *this; }
 
 	bool		at_eof()
-			{ return this->operator*() == '\0'; }
+			{ return *data == '\0'; }
 
 	UCS4		operator*()		// Dereference to char under the pointer
 			{ const UTF8* s = data; return UTF8Get(s); }
-- 
2.43.0


From b0f3eb633fc24aca8534a45084e005d534581665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 09/84] fix: UTF8PutPaddedZero wrote the lead byte of a longer
 sequence

---
 include/char_encoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 206ae7b..2fd8565 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -265,7 +265,7 @@ UTF8PutPaddedZero(UTF8*& cp, int length)
 	assert(length >= 0 && length <= 6);
 	if (length > 1)
 	{
-		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
+		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length-1];	// Put lead byte with zero payload
 		while (--length > 0)
 			*cp++ = 0x80;				// Put trailing bytes with zero payload
 	}
-- 
2.43.0


From 4b336b76d1009ef965ff959b262bf9aec9510ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 10/84] fix: an array could not be sliced up to its end

---
 include/array.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index f7ea4a9..f0a50aa 100644
--- a/include/array.h
+++ b/include/array.h
@@ -444,8 +444,7 @@ public:
 	ArrayR(Body* body, Index offs, Index len)
 			: body(body), offset(offs), num_elements(len)
 			{
-				assert(offs < body->length());
-				assert(offs+len < body->length());
+				assert(offs+len <= (body ? body->length() : 0));
 			}
 protected:
 	bool		isStatic() const;
-- 
2.43.0


From 366c999537923e105b3abd267cadf9701360ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 11/84] fix: changing the last slice of an array ignored where
 in the body it is

---
 include/array.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index f0a50aa..940cb0d 100644
--- a/include/array.h
+++ b/include/array.h
@@ -210,7 +210,7 @@ public:
 				}
 
 				Unshare();
-				body->remove(at, len);
+				body->remove(offset+at, len);
 				num_elements -= len;
 				return *this;
 			}
@@ -231,7 +231,7 @@ public:
 	ArrayR&		operator+=(const Element& addend)
 			{
 				Unshare(1);
-				body->insert(num_elements, &addend, 1);
+				body->insert(offset+num_elements, &addend, 1);
 				num_elements++;
 				return *this;
 			}
@@ -269,7 +269,7 @@ public:
 				}
 
 				Unshare(addend.length());
-				body->insert(pos, addend.asElements(), addend.length());
+				body->insert(offset+pos, addend.asElements(), addend.length());
 				num_elements += addend.length();
 				return *this;
 			}
@@ -457,7 +457,11 @@ private:
 	void		Unshare(Index extra = 0)	// Get our own copy of Body that we can safely mutate
 			{
 				if (body && body->GetRefCount() <= 1)
+				{		// The body may still hold elements from beyond the end of this slice
+					if (offset+num_elements < body->length())
+						body->remove(offset+num_elements);
 					return;
+				}
 
 				// Copy only this slice of the body's data, and reset our offset to zero
 				body = new Body(asElements(), true, num_elements, num_elements+extra);
-- 
2.43.0


From a6a10327da308a92816bcb5481b8e71bd480aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 12/84] fix: Array unshift, elem_ref, last_ref, reverse, append
 and += of an array did not compile or link

---
 include/array.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/array.h b/include/array.h
index 940cb0d..608abf2 100644
--- a/include/array.h
+++ b/include/array.h
@@ -77,7 +77,8 @@ public:
 			  Unshare();
 			  return body->data()[offset+elem_num]; }
 	const Element&	elem_ref(int elem_num) const
-			{ return elem_mut(elem_num); }
+			{ assert(elem_num >= 0 && elem_num < num_elements && body);
+			  return body->data()[offset+elem_num]; }
 	const Element*	asElements() const
 			{ return body ? body->data()+offset : 0; }
 
@@ -244,7 +245,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
+			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if ((Body*)body == (Body*)addend.body)	// From the same body
@@ -274,7 +275,7 @@ public:
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-			{ return insert(num_elements, addend.asElements(), addend.length()); }
+			{ return insert(num_elements, addend); }
 	ArrayR&		append(const Element& addend)	// Append an element to the end
 			{ return push(addend); }
 	ArrayR&		reverse()
@@ -282,8 +283,8 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	ep = dp+num_elements;		// End of our slice
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
 					Element	e = *--ep;
@@ -447,7 +448,8 @@ public:
 				assert(offs+len <= (body ? body->length() : 0));
 			}
 protected:
-	bool		isStatic() const;
+	bool		isStatic() const
+			{ return body && body->isStatic(); }
 
 private:
 	Ref<Body>	body;		// The storage structure for the elements
-- 
2.43.0


From 1acabda7928f4f171d70a4d5b3f468bdaad4da7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 13/84] fix: inserting an array into itself read elements it
 had freed

---
 include/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 608abf2..15ca57d 100644
--- a/include/array.h
+++ b/include/array.h
@@ -248,6 +248,7 @@ public:
 			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
+				const ArrayR	source(addend);		// Might be *this; hold its elements while we change ours
 				if ((Body*)body == (Body*)addend.body)	// From the same body
 				{
 					// Handle the rare but important cases of extending a slice
@@ -270,8 +271,8 @@ public:
 				}
 
 				Unshare(addend.length());
-				body->insert(offset+pos, addend.asElements(), addend.length());
-				num_elements += addend.length();
+				body->insert(offset+pos, source.asElements(), source.length());
+				num_elements += source.length();
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-- 
2.43.0


From 51533949f43f5bd72b2afa6b1fdaeca29bdbc2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 14/84] fix: Array rfind never looked at the first element

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 15ca57d..10521de 100644
--- a/include/array.h
+++ b/include/array.h
@@ -151,7 +151,7 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
+				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp-- > dp; )
 					if (*bp == e)
 						return bp-dp;
 				return -1;				// Not found
@@ -376,7 +376,7 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
+				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp-- > dp; )
 					if (match(*bp))
 						return bp-dp;
 				return -1;				// Not found
-- 
2.43.0


From dcb70820c20da6b56c38b8ad3a7d0ba3c3d55625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 15/84] fix: an Array compared equal to any prefix of itself

---
 include/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array.h b/include/array.h
index 10521de..6477857 100644
--- a/include/array.h
+++ b/include/array.h
@@ -100,6 +100,8 @@ public:
 				}
 				if (i < comparand.length())
 					return -1;
+				if (i < num_elements)
+					return 1;
 				return 0;
 			}
 	inline bool	operator==(const ArrayR& comparand) const {
-- 
2.43.0


From 591f545a973e8fc0af406bd5ef8b0fce170fe4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 16/84] fix: Array bsearch looked beyond the end and skipped
 elements

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 6477857..ec5f941 100644
--- a/include/array.h
+++ b/include/array.h
@@ -421,12 +421,12 @@ public:
 				Index		r = num_elements;
 				while (r > l)
 				{
-					Index	m = l+(r-l+1)/2;	// Care with unsigned overflow
+					Index	m = l+(r-l)/2;		// Care with unsigned overflow
 					int	c = comparator(dp[m]);
 					if (c == 0)
 						return m;
 					if (c > 0)
-						r = m-1;		// The middle element was too great
+						r = m;			// The middle element was too great
 					else
 						l = m+1;		// The middle element was too small
 				}
-- 
2.43.0


From c718258ae7d69825fd6fc4b6b0f35152d58b6252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 17/84] fix: Array search and functional methods dereferenced
 the missing body of an empty array

---
 include/array.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/array.h b/include/array.h
index ec5f941..d065aee 100644
--- a/include/array.h
+++ b/include/array.h
@@ -142,7 +142,7 @@ public:
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (*bp == e)
@@ -151,7 +151,7 @@ public:
 			}
 	int		rfind(const Element& e, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp-- > dp; )
 					if (*bp == e)
@@ -300,7 +300,7 @@ public:
 			{
 				if (num_elements == 0)
 					return *this;				// body may be null
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	bp = dp;			// Output pointer
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* sp = dp; sp < ep; sp++, bp++)
@@ -324,7 +324,7 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -333,7 +333,7 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -342,7 +342,7 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -351,7 +351,7 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -367,7 +367,7 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -376,7 +376,7 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp-- > dp; )
 					if (match(*bp))
@@ -388,7 +388,7 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -399,7 +399,7 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -408,7 +408,7 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -416,7 +416,7 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
-- 
2.43.0


From 361eab794907397a5dae0773eeab5c7be497effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 18/84] fix: Array delete_if deleted nothing but dropped
 elements at the end

---
 include/array.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/include/array.h b/include/array.h
index d065aee..076e6e1 100644
--- a/include/array.h
+++ b/include/array.h
@@ -300,24 +300,18 @@ public:
 			{
 				if (num_elements == 0)
 					return *this;				// body may be null
-				const Element*	dp = asElements();		// Start of our slice
-				const Element*	bp = dp;			// Output pointer
-				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* sp = dp; sp < ep; sp++, bp++)
-					if (condition(*sp))
+				Unshare();
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	bp = dp;			// Output pointer
+				Element*	ep = dp+num_elements;		// End of our slice
+				for (Element* sp = dp; sp < ep; sp++)
+					if (!condition(*sp))
 					{
-						if (isShared())
-						{
-							Unshare();	// This invalidates the pointers; reset them
-							dp = body->data() + (dp-sp);
-							bp = body->data() + (bp-sp);
-							ep = body->data() + (ep-sp);
-							// sp = body->data();	// Unnecessary, we won't Unshare twice
-						}
-						bp--;	// Skip this element in the output
+						if (bp != sp)
+							*bp = *sp;		// Close up over the deleted elements
+						bp++;
 					}
-				if (bp < dp)
-					num_elements -= (dp-bp);
+				num_elements = bp-dp;
 				return *this;
 			}
 
-- 
2.43.0


From cef2584e36022e5d891ddf79147d9ff01f6f98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 19/84] fix: shortening an array or string by one more than its
 length did nothing

---
 include/array.h  | 2 +-
 include/strval.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 076e6e1..5e6f5d5 100644
--- a/include/array.h
+++ b/include/array.h
@@ -137,7 +137,7 @@ public:
 	Self		tail(Index num_elem) const
 			{ return slice(length()-num_elem, num_elem); }
 	Self		shorter(Index num_elem) const	// all elements up to tail
-			{ return slice(0, length()-num_elem); }
+			{ return num_elem < length() ? slice(0, length()-num_elem) : Self(); }
 
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
diff --git a/include/strval.h b/include/strval.h
index fadc15e..ffba870 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -488,7 +488,7 @@ public:
 	StrValI		tail(Index chars) const
 			{ return substr(length()-chars, chars); }
 	StrValI		shorter(Index chars) const	// all chars up to tail
-			{ return substr(0, length()-chars); }
+			{ return chars < length() ? substr(0, length()-chars) : null; }
 //	StrValI&	remove(Index at, int len = -1);	// Delete a substring from the middle
 
 	// Search for a character:
-- 
2.43.0


From fbf7221d135939b0376ae366a8bc27d2024bf3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 20/84] fix: changing the last substring of a string changed
 characters outside it

---
 include/strval.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index ffba870..1cba49e 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -809,7 +809,9 @@ private:
 				// A substring on Unallocated memory which is the last remaining ref
 				// cannot be terminated correctly, so must be copied even if unshared
 				bool	must_copy_static = body->isStatic() && offset+length() < body->numChars();
-				if (must_copy_static || body->isShared())
+				// A substring must be copied too, so only its own characters are affected
+				bool	must_copy_slice = offset != 0 || length() != body->numChars();
+				if (must_copy_static || must_copy_slice || body->isShared())
 					copyBody();
 			}
 
-- 
2.43.0


From 6df94b5c53ddecba3fcc53d0f1432abe7514199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 21/84] fix: inserting a string into itself read data it had
 freed

---
 include/strval.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 1cba49e..2b1e7db 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -694,11 +694,12 @@ public:
 					return *this;
 				}
 
-				Unshare();
-
 				// REVISIT: Handle StrRawBinary data
+				Ref<Body>	addend_body(addend.body); // The addend might be *this; hold its data while we change ours
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
+
+				Unshare();
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
 				// REVISIT: update or nullify the bookmark if after insertion point
 				num_chars += addend.length();
-- 
2.43.0


From e18d6984df71f75e0e22b3c9c400a122d0829d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 22/84] fix: a string used a stale bookmark after insertion or
 case conversion

---
 include/strval.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 2b1e7db..188d764 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -701,8 +701,8 @@ public:
 
 				Unshare();
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				// REVISIT: update or nullify the bookmark if after insertion point
-				num_chars += addend.length();
+				num_chars = body->numChars();		// Bytes that meet here might make one character
+				mark = Bookmark();			// It might be after the insertion point
 				return *this;
 			}
 	StrValI&	append(const StrValI& addend)
@@ -717,6 +717,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toLower();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	toUpper()
@@ -724,6 +725,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toUpper();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after = -1);
@@ -733,6 +735,7 @@ public:
 				Unshare();
 				body->toJSON();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 
-- 
2.43.0


From 4e75ff81558a317e22822002ac314802bee815ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 23/84] fix: string comparison read past the end of a shorter
 comparand, and could order it wrongly

---
 include/strval.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 188d764..f7f5a4b 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -867,10 +867,13 @@ int StrValI<Index>::compare(const StrValI& comparand, CompareStyle style) const
 	switch (style)
 	{
 	case CompareRaw:
-		cmp = memcmp(nthChar(0), comparand.nthChar(0), numBytes());
+	{
+		Index		bytes = numBytes(), comparand_bytes = comparand.numBytes();
+		cmp = memcmp(nthChar(0), comparand.nthChar(0), bytes < comparand_bytes ? bytes : comparand_bytes);
 		if (cmp == 0)
-			cmp = numBytes() - comparand.numBytes();
+			cmp = bytes < comparand_bytes ? -1 : bytes > comparand_bytes;
 		return cmp;
+	}
 
 	case CompareCI:
 		assert(!"REVISIT: Case-independent comparison is not implemented");
-- 
2.43.0


From d42e7e90aa6406d6fea9e527a732b787924cac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 24/84] fix: forward searches also looked at the character
 after the end of the string

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index f7f5a4b..64a049a 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -496,7 +496,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -558,7 +558,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -589,7 +589,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
-- 
2.43.0


From f0806d728129ecaf774904f2cebb47442f807b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 25/84] fix: searching for a substring read past the end of the
 string, and looked everywhere for a longer one

---
 include/strval.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 64a049a..ca2b875 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -523,13 +523,16 @@ public:
 	int		find(const StrValI& s1, int after = -1) const
 			{
 				Index		n = after+1;		// First Index we'll look at
+				if (s1.length() > length())
+					return -1;
 				Index		last_start = length()-s1.length();	// Last possible start position
-				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes;
+				const char*	s1start = s1.asUTF8(s1bytes);
 				const char*	up;
 				while (n <= last_start && (up = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(up, s1start, s1.numBytes()) == 0)
+					if (nthChar(n+s1.length()) == up+s1bytes && memcmp(up, s1start, s1bytes) == 0)
 						return n;
 					n++;
 				}
@@ -537,16 +540,19 @@ public:
 			}
 	int		rfind(const StrValI& s1, int before = -1) const
 			{
+				if (s1.length() > length() || before == 0)
+					return -1;
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
 				if (n > length()-s1.length())
 					n = length()-s1.length();
 
-				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes;
+				const char*	s1start = s1.asUTF8(s1bytes);
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (nthChar(n+s1.length()) == bp+s1bytes && memcmp(bp, s1start, s1bytes) == 0)
 						return n;
 					n--;
 				}
-- 
2.43.0


From 1a424e0e8ce67c0e7760107539ef08483ae54613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 26/84] fix: a string made from counted data read the byte
 after it

---
 include/strval.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index ca2b875..a8e3d8c 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -78,13 +78,15 @@ public:
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
-			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+1, allocate)
+			: Body(data, dt != StrStatic,
+				(length == 0 ? strlen(data)+1 : dt == StrStatic ? length+1 : length),
+				allocate > length ? allocate : length+1)
 			, num_chars(0)
 			{
 				// REVISIT: Need a Panic() function when a string passes the allowed maximum size
 				// assert(num_elements < StrValIndexRawBinaryMarker);
 				if (dt != StrStatic && length != 0)
-					start[num_elements-1] = '\0';	// Perhaps we didn't copy a NUL, so add one
+					start[num_elements++] = '\0';	// We didn't copy a NUL, so add one (there's room for it)
 				if (dt == StrRawBinary)
 					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
 			}
-- 
2.43.0


From 4b963fd23a2b7c8aa22bb078c0bedb6099cc36b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 27/84] fix: characters of a shared string body could be
 counted twice by two threads

---
 include/strval.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index a8e3d8c..e4ac6a5 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -253,6 +253,7 @@ protected:
 				if (isRawBinary())
 					return;
 
+				Index		count = 0;
 				const char*	cp = start;		// Progress pointer when reading data
 				char*		ep = start+num_elements-1;	// Marker for end of data
 				while (cp < ep)
@@ -262,8 +263,9 @@ protected:
 					 || cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
-					num_chars++;
+					count++;
 				}
+				num_chars = count;
 			}
 
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
-- 
2.43.0


From bb7477b690aacc7a2d6c1f2cd2d59bdc14e86643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 28/84] fix: asInt32 did not accept the 0b and 0x prefixes with
 radix 2 and 16

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index e4ac6a5..aee44f7 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1022,7 +1022,7 @@ int32_t StrValI<Index>::asInt32(
 			goto no_digits;
 	}
 
-	if (radix == 0)		// Auto-detect radix (octal, decimal, binary)
+	if (radix == 0 || radix == 2 || radix == 16)	// Auto-detect radix (octal, decimal, binary) or skip its prefix
 	{
 		if (UCS4Digit(ch) == 0 && i+1 < len)
 		{
@@ -1053,7 +1053,7 @@ int32_t StrValI<Index>::asInt32(
 				break;
 			}
 		}
-		else
+		else if (radix == 0)
 			radix = 10;
 	}
 
-- 
2.43.0


From 3cc2f2ba50593202f028cfcfc1d8f3a176bf89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 29/84] fix: asInt32 returned a truncated value without an
 overflow error

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index aee44f7..438e972 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1091,7 +1091,7 @@ int32_t StrValI<Index>::asInt32(
 	if (scanned)
 		*scanned = i;
 
-	if (l > (unsigned long)LONG_MAX+(negative ? 1 : 0))
+	if (l > (unsigned long)INT32_MAX+(negative ? 1 : 0))
 	{
 		if (err_return)
 			*err_return = ErrNum(STRERR_SET, STRERR_NUMBER_OVERFLOW);
-- 
2.43.0


From 0c73b9de8fe7da2d4e6a3a9c6bf013da391ba59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 30/84] fix: JSON strings contained the invalid escape \0

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 438e972..3453c3e 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1139,7 +1139,7 @@ StrBodyI<Index>::toJSON()
 			switch (ch)
 			{
 			case '\0':	// Null Byte
-				*op++ = '\\'; *op++ = '0'; break;
+				memcpy(op, "\\u0000", 6); op += 6; break;	// JSON has no \0 escape
 			case '\"':	// Double quote
 				*op++ = '\\'; *op++ = '\"'; break;
 			case '\\':	// Backslash character
-- 
2.43.0


From aa2b4e837e3c9a17b5644264316d8f9a8aa318b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 31/84] fix: JSON strings contained the wrong surrogate pairs,
 and aborted on the last plane

---
 include/strval.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 3453c3e..9128446 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1189,8 +1189,9 @@ StrBodyI<Index>::toJSON()
 				}
 
 				// We need two surrogates for Emoji's etc.
-				assert(ch <= 0xFFFFF);
-				// Surrogate pair: D800 to DBFF, Low surrogate: D800 to DBFF
+				assert(ch <= 0x10FFFF);
+				// Surrogate pair: D800 to DBFF, Low surrogate: DC00 to DFFF
+				ch -= 0x10000;
 				u4(0xD800+((ch>>10)&0x3FF), op);
 				u4(0xDC00+(ch&0x3FF), op);
 				break;
-- 
2.43.0


From e82ee7bdf9b79a6ed023e7b33ef49fc518df67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 32/84] fix: error numbers had their flags among the bits of
 the set number

---
 include/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/error.h b/include/error.h
index dc39a73..27fbbad 100644
--- a/include/error.h
+++ b/include/error.h
@@ -38,8 +38,8 @@
 class ErrNum
 {
 public:
-	static const int32_t	ERR_FLAG = 0x8000000;	// Sign bit is used to indicate an error, allowing quick checks
-	static const int32_t	ERR_CUST = 0x4000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
+	static const int32_t	ERR_FLAG = (int32_t)0x80000000;	// Sign bit is used to indicate an error, allowing quick checks
+	static const int32_t	ERR_CUST = 0x40000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
 
 	constexpr ErrNum()
 			: errnum(0) {}
-- 
2.43.0


From a6b0fde230957cfd6663bd20b93f6346a8e8bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 33/84] fix: the JSON form of a string containing malformed
 UTF-8 aborted

---
 include/strval.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 9128446..c91c8b2 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1189,7 +1189,11 @@ StrBodyI<Index>::toJSON()
 				}
 
 				// We need two surrogates for Emoji's etc.
-				assert(ch <= 0x10FFFF);
+				if (ch > 0x10FFFF)	// Not Unicode (perhaps from malformed UTF-8), so JSON can't contain it
+				{
+					putChar(op, UCS4_REPLACEMENT);
+					break;
+				}
 				// Surrogate pair: D800 to DBFF, Low surrogate: DC00 to DFFF
 				ch -= 0x10000;
 				u4(0xD800+((ch>>10)&0x3FF), op);
-- 
2.43.0


From 61d54b759d95c5cff541e9d1efbe8f4a4d4bb242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 34/84] fix: a transformed string miscounted characters formed
 where its pieces join

---
 include/strval.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index c91c8b2..8365818 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -930,7 +930,6 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 			assert(next < ep);
 			StrVal		replacement = xform(next, ep);
 			Index		replaced_bytes = next-up;	// How many bytes were consumed?
-			Index		replaced_chars = replacement.length();	// Replaced by how many chars?
 
 			// Advance 'up' over the replaced characters
 			while (up < next)
@@ -944,7 +943,6 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 			Index		replacement_bytes;
 			const char*	rp = replacement.asUTF8(replacement_bytes);
 			ArrayBody<char, Index>::insert(num_elements, rp, replacement_bytes);
-			num_chars += replacement.length();
 			op = start+num_elements;
 		}
 		else
@@ -958,11 +956,11 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 			}
 			putChar(op, ch);
 			num_elements = op-start;
-			num_chars++;
 		}
 	}
 	// Append the \0 to the array:
 	ArrayBody<char, Index>::insert(num_elements, "", 1);
+	num_chars = 0;		// Force a re-count, the pieces may have joined into different characters
 	delete [] old_start;
 }
 
-- 
2.43.0


From efad50743483a9a065041c04e9c46f0a889993da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 35/84] fix: a StringArray made from StrVals read them with the
 wrong stride

---
 include/strval.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 8365818..11a6729 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1215,13 +1215,15 @@ public:
 	StringArray() {}
 	StringArray(const Base& a1) : Base(a1) {}
 	StringArray(const StrVal* data, Index size, Index allocate = 0)
-	: Array(data, size, allocate)
+	: Array((const StrRef*)0, 0, allocate < size ? size : allocate)
 	{
+		for (Index i = 0; i < size; i++)	// A StrVal is bigger than a StrRef, so copy them one by one
+			append(data[i]);
 	}
 
 	// Construct from an Array of const char*
 	StringArray(const Array<const char*> strings)
-	: Array((const StrVal*)0, 0, strings.length())
+	: Array((const StrRef*)0, 0, strings.length())
 	{
 		strings.each([&](const char* s) { append(s); });
 	}
-- 
2.43.0


From f543ecaeb268d567551e6646b920b2bd3ec58c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 36/84] fix: putting an existing key erased it from every copy
 of the map

---
 include/cowmap.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 7e46a13..26a3b5d 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,10 +75,12 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-				auto search = find(k);
-				if (search != end())
-					body->erase(k);
-				insert(k, v);
+				Unshare();
+				auto search = body->find(k);
+				if (search != body->end())
+					search->second = v;
+				else
+					body->insert(BaseVP(k, v));
 				return k;
 			}
 
-- 
2.43.0


From 3132daad4a2bb64aa8c1dc5470217f9e769390f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 37/84] fix: CowMap enumeration and functional methods did not
 compile

---
 include/cowmap.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 26a3b5d..35902ff 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -87,35 +87,35 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	Array<Key>	keys() const
 			{
-				Array<K>	all_keys((Value*)0, 0, size());
+				Array<Key>	all_keys((Key*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_keys.append(it.first);
+					all_keys.append(it->first);
 				return all_keys;
 			}
 	Array<Value>	values() const
 			{
 				Array<Value>	all_values((Value*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_values.append(it.second);
+					all_values.append(it->second);
 				return all_values;
 			}
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
 				for (Iter it = begin(); it != end(); it++)
-					operation(it.first, it.second);
+					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (!condition(it.first, it.second))
+					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
@@ -123,7 +123,7 @@ public:
 			{
 				bool		found = false;
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 					{
 						if (found)
 							return false;
@@ -137,8 +137,8 @@ public:
 				CowMap	selected;
 
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
-						selected.put(it.first, it.second);
+					if (condition(it->first, it->second))
+						selected.put(it->first, it->second);
 				return selected;
 			}
 	template<typename V2 = V, typename K2 = K>
@@ -146,7 +146,10 @@ public:
 			{
 				CowMap<V2, K2>	output;
 				for (Iter it = begin(); it != end(); it++)
-					output.append(map1(it.first, it.second));
+				{
+					std::pair<K2, V2>	mapped = map1(it->first, it->second);
+					output.put(mapped.first, mapped.second);
+				}
 				return output;
 			}
 	template<typename J>
@@ -154,7 +157,7 @@ public:
 			{
 				J	accumulator = start;
 				for (Iter it = begin(); it != end(); it++)
-					accumulator = injection(accumulator, it.first, it.second);
+					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
 
-- 
2.43.0


From ebfad487a871797993515033ed66e8072f2cecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 38/84] fix: a numeric string could not be converted to Integer
 or Long, and any other was

---
 include/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 7f1065f..5a5f7b9 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -292,7 +292,7 @@ protected:
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
 					u.i = (int)u.ll; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.i = i32;
 					_type = new_type;
@@ -313,7 +313,7 @@ protected:
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
 					u.l = (long)u.ll; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.l = i32;
 					_type = new_type;
-- 
2.43.0


From b9c75fb535fc5ada239fe5c3d9a9450147eb4ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 39/84] fix: converting a Variant string to a number leaked the
 string

---
 include/variant.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/variant.h b/include/variant.h
index 5a5f7b9..a439c66 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -294,6 +294,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.i = i32;
 					_type = new_type;
 					return;
@@ -315,6 +316,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.l = i32;
 					_type = new_type;
 					return;
@@ -335,6 +337,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.ll = i32;
 					_type = new_type;
 					return;
-- 
2.43.0


From 0d81848c1e2e06542bc4d9448c14883a08dbca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 40/84] fix: converting a Variant between integer widths did
 not change its type

---
 include/variant.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index a439c66..80008a9 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -288,9 +288,9 @@ protected:
 			{
 			case Integer:	return; // Already handled
 			case Long:	if (u.l != (int)u.l) break;	// Fail if it would truncate
-					u.i = (int)u.l; return;
+					u.i = (int)u.l; _type = new_type; return;
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
-					u.i = (int)u.ll; return;
+					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (e)				// Some error in conversion
 						break;
@@ -309,10 +309,10 @@ protected:
 		case Long:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
+			case Integer:	u.l = u.i; _type = new_type; return;
 			case Long:	return; // Already handled
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
-					u.l = (long)u.ll; return;
+					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
@@ -331,8 +331,8 @@ protected:
 		case LongLong:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
-			case Long:	u.ll = u.l; return;
+			case Integer:	u.ll = u.i; _type = new_type; return;
+			case Long:	u.ll = u.l; _type = new_type; return;
 			case LongLong:	return; // Already handled
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
-- 
2.43.0


From 54a3bf8b3ac306c7c19a0ec105b64c29292b53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 41/84] fix: single-line JSON of a Variant lost the space
 before a closing bracket

---
 include/variant.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 80008a9..46d896d 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -177,6 +177,9 @@ public:
 				sep = StrVal(",\n")+StrVal("  ")*next_indent;
 				break;
 		}
+		StrVal		close = sep.substr(1);	// Separator before a closing bracket, one indent level less
+		if (indent != -2 && indent != -1)
+			close = close.shorter(2);
 
 		char	buf[2+sizeof(long long)*5/2];	// long enough for decimal long long, sign and nul
 		switch (_type)
@@ -208,7 +211,7 @@ public:
 			for (int i = 0; i < u.str_arr.length(); i++)
 				str += (i > 0 ? sep : StrVal())
 				    + Variant(u.str_arr[i]).as_json(next_indent);
-			return str+sep.substr(1).shorter(2)+"]";
+			return str+close+"]";
 			}
 
 		case VarArray:
@@ -217,7 +220,7 @@ public:
 			for (int i = 0; i < u.var_arr.length(); i++)
 				str += (i > 0 ? sep : StrVal())
 				    + u.var_arr[i].as_json(next_indent);
-			return str+sep.substr(1).shorter(2)+"]";
+			return str+close+"]";
 			}
 
 		case StrVarMap:
@@ -230,7 +233,7 @@ public:
 				    + (indent==-2 ? ":" : ": ")
 				    + (*iter).second.as_json(next_indent);
 			}
-			return str+sep.substr(1).shorter(2)+"}";
+			return str+close+"}";
 			}
 		}
 	}
-- 
2.43.0


From f21b1758df30c71ccb416abd9a18d0104e2edbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 42/84] fix: a Latch could be made with attributes another
 thread was still initialising

---
 include/lockfree.h | 13 ++++---------
 src/lockfree.cpp   |  5 +----
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 0c92b7f..3a0455a 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -39,9 +39,6 @@ public:
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
 
-	static	std::atomic<bool>	initialised;
-	static	pthread_mutexattr_t	attr;
-
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
 	std::atomic<ThreadId>	mutex;
@@ -60,14 +57,12 @@ public:
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
 {
-	if (!initialised)
-	{
-		initialised = true;
-		pthread_mutexattr_init(&Latch::attr);
-		pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
-	}
+	pthread_mutexattr_t	attr;
 
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
 	pthread_mutex_init(&mutex, &attr);
+	pthread_mutexattr_destroy(&attr);
 }
 
 Latch::~Latch()
diff --git a/src/lockfree.cpp b/src/lockfree.cpp
index 3badcf0..586f2d6 100644
--- a/src/lockfree.cpp
+++ b/src/lockfree.cpp
@@ -6,10 +6,7 @@
 #include	<assert.h>
 #include	<lockfree.h>
 
-#if	defined(HAVE_PTHREADS)
-pthread_mutexattr_t	Latch::attr;
-std::atomic<bool>	Latch::initialised;
-#else
+#if	!defined(HAVE_PTHREADS)
 
 int			Latch::num_cores;
 
-- 
2.43.0


From 9e284f284ab3c28d0af2ca575f455ca7f5952bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 43/84] fix: Latch holding() and leave() waited for a latch
 held by another thread

---
 include/lockfree.h | 18 ++++++++++--------
 src/condition.cpp  |  4 ++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 3a0455a..2a52fd9 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -38,6 +38,7 @@ public:
 #if	defined(HAVE_PTHREADS)
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
+	std::atomic<ThreadId>	holder;	// The thread that holds the mutex, if any
 
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
@@ -56,6 +57,7 @@ public:
 
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
+: holder(0)
 {
 	pthread_mutexattr_t	attr;
 
@@ -73,7 +75,10 @@ Latch::~Latch()
 bool
 Latch::probe()		// Gain the latch if possible immediately
 {
-	return pthread_mutex_trylock(&mutex) == 0;
+	if (pthread_mutex_trylock(&mutex) != 0)
+		return false;
+	holder = pthread_self();
+	return true;
 }
 
 void
@@ -81,23 +86,20 @@ Latch::enter()		// Wait for the latch
 {
 	int ret = pthread_mutex_lock(&mutex);
 	assert(ret != EDEADLK);
+	holder = pthread_self();
 }
 
 bool
 Latch::holding()	// Latch is held by calling thread?
 {
-	int ret = pthread_mutex_lock(&mutex);
-	if (ret == EDEADLK)
-		return true;
-	if (ret == 0)
-		leave();
-	return false;
+	return holder == pthread_self();
 }
 
 void
 Latch::leave()		// Release the latch
 {
-	assert(pthread_mutex_lock(&mutex) == EDEADLK);
+	assert(holding());
+	holder = 0;
 	pthread_mutex_unlock(&mutex);
 }
 
diff --git a/src/condition.cpp b/src/condition.cpp
index 13adb95..d67c6b5 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -61,7 +61,9 @@ Condition::wait(
 )
 {
 #if	defined(HAVE_PTHREADS)
+	user_latch->holder = 0;
 	pthread_cond_wait(&cond, &user_latch->mutex);
+	user_latch->holder = Thread::currentId();
 #elif	defined(MSW)
 	// Increment the count of waiters and grab the generation count:
 	ThreadId	tid = Thread::currentId();
@@ -148,7 +150,9 @@ Condition::wait(		// Wait for a ticket
 	struct timespec	ts;
 	ts.tv_sec = (unsigned long)timeout / 1000;
 	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	user_latch->holder = 0;
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
+	user_latch->holder = Thread::currentId();
 	if (retcode == ETIMEDOUT)
 	{
 		timeout = 0;
-- 
2.43.0


From 1f8316d19f2db6d76148c9a6d26c3ab7ce1a6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 44/84] fix: a timed Condition wait returned at once, and never
 the time left

---
 src/condition.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/condition.cpp b/src/condition.cpp
index d67c6b5..fe76c8b 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -5,6 +5,7 @@
  * When it is, one or all waiting threads continue. Until signalled threads have
  * continued, any thread that tries to signal it again will block.
  */
+#include	<time.h>
 #include	<unistd.h>
 
 #include	<thread.h>
@@ -147,9 +148,18 @@ Condition::wait(		// Wait for a ticket
 {
 #if	defined(HAVE_PTHREADS)
 	int		retcode;
-	struct timespec	ts;
-	ts.tv_sec = (unsigned long)timeout / 1000;
-	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	struct timespec	ts;		// The absolute time when we stop waiting
+	struct timespec	now;
+	if (timeout < 0)
+		timeout = 0;
+	clock_gettime(CLOCK_REALTIME, &ts);
+	ts.tv_sec += timeout / 1000;
+	ts.tv_nsec += timeout % 1000 * 1000000L;
+	if (ts.tv_nsec >= 1000000000L)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000L;
+	}
 	user_latch->holder = 0;
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
 	user_latch->holder = Thread::currentId();
@@ -159,7 +169,12 @@ Condition::wait(		// Wait for a ticket
 	}
 	else
 	{
-		// REVISIT: Subtract elapsed time from timeout
+		// Subtract elapsed time from timeout
+		clock_gettime(CLOCK_REALTIME, &now);
+		long	ns = ts.tv_nsec-now.tv_nsec;
+		timeout = (ts.tv_sec-now.tv_sec)*1000 + (ns > 0 ? (ns+999999)/1000000 : ns/1000000);
+		if (timeout < 0)
+			timeout = 0;
 	}
 #elif	defined(MSW)
 	YMDTimeC	start = YMDTimeC::now();
-- 
2.43.0


From 168d6346db28719b77376b6aeafabe8934b00a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 45/84] fix: waiting for a Condition without a Latch crashed

---
 include/condition.h |  1 +
 src/condition.cpp   | 22 ++++++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/condition.h b/include/condition.h
index 70244b1..faf7eaf 100644
--- a/include/condition.h
+++ b/include/condition.h
@@ -40,6 +40,7 @@ public:
 private:
 #if	defined(HAVE_PTHREADS)
 	pthread_cond_t		cond;
+	Latch			latch;	// For a waiter that doesn't provide one
 #elif	defined(MSW)
 	Latch			latch;
 	int			waiters_count;	// Number of threads waiting
diff --git a/src/condition.cpp b/src/condition.cpp
index fe76c8b..131d10d 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -62,9 +62,14 @@ Condition::wait(
 )
 {
 #if	defined(HAVE_PTHREADS)
-	user_latch->holder = 0;
-	pthread_cond_wait(&cond, &user_latch->mutex);
-	user_latch->holder = Thread::currentId();
+	Latch*		l = user_latch ? user_latch : &latch;
+	if (!user_latch)
+		latch.enter();
+	l->holder = 0;
+	pthread_cond_wait(&cond, &l->mutex);
+	l->holder = Thread::currentId();
+	if (!user_latch)
+		latch.leave();
 #elif	defined(MSW)
 	// Increment the count of waiters and grab the generation count:
 	ThreadId	tid = Thread::currentId();
@@ -160,9 +165,14 @@ Condition::wait(		// Wait for a ticket
 		ts.tv_sec++;
 		ts.tv_nsec -= 1000000000L;
 	}
-	user_latch->holder = 0;
-	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
-	user_latch->holder = Thread::currentId();
+	Latch*		l = user_latch ? user_latch : &latch;
+	if (!user_latch)
+		latch.enter();
+	l->holder = 0;
+	retcode = pthread_cond_timedwait(&cond, &l->mutex, &ts);
+	l->holder = Thread::currentId();
+	if (!user_latch)
+		latch.leave();
 	if (retcode == ETIMEDOUT)
 	{
 		timeout = 0;
-- 
2.43.0


From aea695749905422a7714b7c9ed8d7444867e7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 46/84] fix: the state of a thread was not initialised, and
 read by joinAny without synchronisation

---
 include/thread.h | 4 +++-
 src/thread.cpp   | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 2531cfe..37854cc 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -115,6 +115,8 @@ public:
 };
 
 Thread::Thread()
+: thread_id(0)
+, state(New)
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
@@ -144,7 +146,7 @@ Thread::~Thread()
 	if (this == main_thread)
 		return;
 #if	defined(HAVE_PTHREADS)
-	assert(state == Ended);
+	assert(state != Started);
 #elif	defined(MSW)
 	if (state != Ended)
 	{		// It is possible to kill a thread on Windows but seriously ill-advised, because it can leave latches set, etc.
diff --git a/src/thread.cpp b/src/thread.cpp
index 417f4a1..4bd1c59 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -27,12 +27,12 @@ Thread::ThreadProc(void* _this)
 	// This code can be run *before* pthread_create has assigned the thread_id. Wait for it.
 	thread_latch.enter();
 	assert(t->id());
+	t->state = Started;
 	thread_latch.leave();
 #elif	defined(MSW)
 	assert(t->handle());
-#endif
-
 	t->state = Started;
+#endif
 
 #if	defined(HAVE_PTHREADS)
 	void*	ret = (void*)(long)t->run();
-- 
2.43.0


From 05bee85bb77a8f54c4242bc48a92b983f395657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 47/84] fix: the main thread was not among the threads, so
 joinAny never returned the last of the others

---
 include/thread.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/thread.h b/include/thread.h
index 37854cc..92b58c0 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -95,6 +95,9 @@ public:
 		thread_id = Thread::currentId();
 		state = Started;
 		main_thread = this;	// Override prior initialisation in superclass constructor
+		thread_latch.enter();
+		threads[thread_id] = this;
+		thread_latch.leave();
 #if	defined(MSW)
 		if (!DuplicateHandle(
 			GetCurrentProcess(),
-- 
2.43.0


From 99785dce4de13e277e99c99bdfdd1fb556de0807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 48/84] fix: joinAny waited forever for a thread that could not
 be started

---
 include/thread.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 92b58c0..da4db5f 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -180,9 +180,12 @@ Thread::resume()
 #if	defined(HAVE_PTHREADS)
 	thread_latch.enter();
 	int	code = pthread_create(&thread_id, (pthread_attr_t*)0, Thread::ThreadProc, this);
-	// if (!code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
+	// if (code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
 
-	threads.insert({thread_id, this});
+	if (code == 0)
+		threads.insert({thread_id, this});
+	else
+		thread_id = 0;		// Not started, so don't wait for it
 	thread_latch.leave();
 #elif	defined(MSW)
 	if (thread_handle)
-- 
2.43.0


From 2c22c48c39307ad273a06eb087655db23331fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 49/84] fix: joinAny waited forever when another thread joined
 the last one, or for itself

---
 src/thread.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 4bd1c59..19139b7 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -79,29 +79,27 @@ void Thread::exit(int code)
 Thread*
 Thread::joinAny()
 {
+	Id	caller = currentId();
+
 	thread_latch.enter();
-	if (threads.size() <= 1)
-	{
-		thread_latch.leave();
-		return 0;	// No threads except main
-	}
 
 	// Search for a thread whose state is Ended
 	// Remove it from the map and decrement the ended_threads count
 	for (;;)
 	{
-		if (ended_count == 0)	// None have exited but not been joined
-		{
-			ended_threads_condition.wait(&thread_latch);
-			continue;
-		}
+		bool	running = false;	// Is there any other thread that will end?
 
 		// Find any ended thread, remove it from the map and return it
 		for (auto it = threads.begin(); it != threads.end(); it++)
 		{
 			Thread* thread = it->second;
-			if (!thread || thread->state != Ended)
+			if (!thread || thread == main_thread || it->first == caller)
 				continue;
+			if (thread->state != Ended)
+			{
+				running = true;
+				continue;
+			}
 			// threads.erase(it);
 			Id	tid = it->first;
 			threads.erase(tid);
@@ -110,6 +108,13 @@ Thread::joinAny()
 			thread_latch.leave();
 			return thread;
 		}
+
+		if (!running)
+		{
+			thread_latch.leave();
+			return 0;	// No threads except main and ourselves
+		}
+		ended_threads_condition.wait(&thread_latch);	// None have exited but not been joined
 	}
 	// Never returns by this path
 }
-- 
2.43.0


From dabe87ea5e2d41eb4d3a9cadc1d5ffdfd594975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 50/84] fix: joining or destroying a thread could remove a
 newer thread that has the same id

---
 include/thread.h |  4 +++-
 src/thread.cpp   | 22 ++++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index da4db5f..c834901 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -58,6 +58,7 @@ public:
 protected:
 	ThreadId		thread_id;
 	State			state;
+	bool			joining;		// Is some thread in our join()?
 
 	static	Thread*		main_thread;
 	static	Latch		thread_latch;		// control access to threads map
@@ -120,6 +121,7 @@ public:
 Thread::Thread()
 : thread_id(0)
 , state(New)
+, joining(false)
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
@@ -204,7 +206,7 @@ void
 Thread::remove_ended()
 {
 	thread_latch.enter();
-	if (Thread::find(thread_id))
+	if (Thread::find(thread_id) == this)	// A newer thread can have the same id
 	{
 		if (state == Ended)
 			ended_count--;
diff --git a/src/thread.cpp b/src/thread.cpp
index 19139b7..e0034a1 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -93,7 +93,7 @@ Thread::joinAny()
 		for (auto it = threads.begin(); it != threads.end(); it++)
 		{
 			Thread* thread = it->second;
-			if (!thread || thread == main_thread || it->first == caller)
+			if (!thread || thread == main_thread || thread->joining || it->first == caller)
 				continue;
 			if (thread->state != Ended)
 			{
@@ -127,20 +127,26 @@ Thread::join()		// Wait for this thread to end
 	assert(thread_id != 0);		// Can't join a thread that hasn't started
 
 #if	defined(HAVE_PTHREADS)
-	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
-	int	error = pthread_join(thread_id, &retval);
-	if (error)
-		; // posixError("join", error, thread_id);	// Translate and report the error
-
+	// Leave the map before pthread_join, because after that a new thread can have the same id
 	thread_latch.enter();
-	Thread* thread = Thread::find(thread_id);
-	if (thread)
+	joining = true;			// Nobody else may join this thread
+	while (state != Ended)
+		ended_threads_condition.wait(&thread_latch);
+	bool	joined = Thread::find(thread_id) != this;	// Did joinAny return this thread before?
+	if (!joined)
 	{
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
 		ended_count--;
 	}
 	thread_latch.leave();
+	if (joined)
+		return;
+
+	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
+	int	error = pthread_join(thread_id, &retval);
+	if (error)
+		; // posixError("join", error, thread_id);	// Translate and report the error
 
 #elif	defined(MSW)
 	if (state < THREAD_STATE_ENDED) // Thread hasn't finished yet, so wait
-- 
2.43.0


From 4f72df1d5292151e1c1f1d32d9564db3e7bb7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 51/84] fix: threads returned by joinAny, or never joined, were
 never released

---
 include/thread.h | 3 +++
 src/thread.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/thread.h b/include/thread.h
index c834901..52ca498 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -211,6 +211,9 @@ Thread::remove_ended()
 		if (state == Ended)
 			ended_count--;
 		threads.erase(thread_id);	// Remove from map
+#if	defined(HAVE_PTHREADS)
+		pthread_detach(thread_id);	// Nobody joined it, so have its resources released
+#endif
 	}
 	thread_latch.leave();
 	thread_id = 0;
diff --git a/src/thread.cpp b/src/thread.cpp
index e0034a1..3adc792 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -106,6 +106,9 @@ Thread::joinAny()
 			assert(!Thread::find(tid));
 			ended_count--;
 			thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+			(void)pthread_join(tid, 0);	// Release its resources
+#endif
 			return thread;
 		}
 
-- 
2.43.0


From 9e1727816e7d57bc5271a5271644ae44838e48a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 52/84] fix: Thread exit could not be linked, and did not exit
 the thread

---
 include/thread.h | 2 +-
 src/thread.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 52ca498..c8b2441 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -49,7 +49,7 @@ public:
 	static	inline ThreadId		currentId();	// current thread id, fast
 	static	inline ProcessId	currentProcessId();
 	static	inline Thread*		current();	// current thread, slower
-	inline void			exit(int);	// exit the current thread
+	static	void			exit(int);	// exit the current thread
 	static	inline Thread*		main();		// main thread. REVISIT: needed?
 
 	// REVISIT: Iterate over all live threads
diff --git a/src/thread.cpp b/src/thread.cpp
index 3adc792..282375f 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -62,8 +62,7 @@ void Thread::exit(int code)
 		return;		// exited before properly started
 	thread_latch.enter();
 	thread->state = Ended;
-	thread = Thread::find(currentId());
-	if (thread)
+	if (thread != main_thread)
 	{
 		ended_count++;
 		ended_threads_condition.broadcast();
@@ -71,6 +70,7 @@ void Thread::exit(int code)
 	thread_latch.leave();
 
 #if	defined(HAVE_PTHREADS)
+	pthread_exit((void*)(long)code);
 #elif	defined(MSW)
 	ExitThread(code);
 #endif
-- 
2.43.0


From f94f3e29d9fdf0894d9e9f6716a6943b546e1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 53/84] fix: threads that share a string body raced to count
 its characters

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 11a6729..222974c 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -240,14 +240,14 @@ public:	void		insertBytes(Index pos, const char* addend, Index len)
 				assert(s1.num_alloc == 0);	// Must not do this if we would make two references to allocated data
 				start = s1.start;
 				this->AddRef();			// Ensure we don't get deleted
-				num_chars = s1.num_chars;
+				num_chars = s1.num_chars.load();
 				num_elements = s1.num_elements;
 				num_alloc = 0;
 				return *this;
 			}
 
 protected:
-	Index		num_chars;	// zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit
+	std::atomic<Index> num_chars;	// Two threads may count the same body. zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit
 	void		countChars()
 			{
 				if (isRawBinary())
-- 
2.43.0


From 0c3a2b5cf800eeefba5ebe4b3483636cbf81214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 54/84] fix: string array comparisons and searches told only
 empty strings from others

---
 include/strval.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index 222974c..0f917ce 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -357,6 +357,13 @@ public:
 	bool		isEmpty() const { return length() == 0; } // equals empty string?
 	operator bool() const { return !isEmpty(); }
 
+	// Without these, the elements of a StringArray would be compared as bool
+	bool		operator==(const StrRefI& comparand) const
+			{ return StrValI<Index>(*this) == StrValI<Index>(comparand); }
+	bool		operator!=(const StrRefI& comparand) const { return !(*this == comparand); }
+	bool		operator<(const StrRefI& comparand) const
+			{ return StrValI<Index>(*this) < StrValI<Index>(comparand); }
+
 protected:
 	StrRefI(Body* s1, Index offs, Index len)	// offs/len not bounds-checked!
 			: body(s1), offset(offs), num_chars(len) {}
-- 
2.43.0


From f393b42bb3bbd1cc7e816e45796a09a8542aefd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 55/84] fix: skipping a Pegexp repetition or option left its
 operand behind

---
 include/pegexp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pegexp.h b/include/pegexp.h
index 16176e6..139630d 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -794,6 +794,9 @@ protected:
 				skip_atom(pattern);
 			break;
 
+		case '?':	// Zero or one
+		case '*':	// Zero or more
+		case '+':	// One or more
 		case '&':	// Positive lookahead assertion
 		case '!':	// Negative lookahead assertion
 			skip_atom(pattern);
-- 
2.43.0


From 80d8024b1b7d7a86089904549db183c5cb263f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 56/84] fix: Pegexp alternates under an operator were resumed
 in their middle, or repeated in part

---
 include/pegexp.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 139630d..094a52a 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -640,26 +640,23 @@ protected:
 		case '|':	// Alternates
 		{
 			PatternP	next_alternate = state.pattern-1;
-			int		alternate_captures = context->capture_count();
 			while (*next_alternate == '|')	// There's another alternate
 			{
 				state = start_state;
 				state.pattern = next_alternate+1;
-				start_state.pattern = next_alternate+1;
 
-				// Work through all atoms of the current alternate:
-				do {
+				// Work through all atoms of the current alternate, if any:
+				while (!(matched = state.at_expr_end() || *state.pattern == '|'))
 					if (!match_atom(state, context))
 						break;
-				} while (!(matched = state.at_expr_end() || *state.pattern == '|'));
 
 				if (matched)
 				{		// This alternate matched, skip to the end of the alternates
 					while (*state.pattern == '|')	// There's another alternate
-						skip_atom(state.pattern);
+						skip_alternate(state.pattern);
 					break;
 				}
-				next_alternate = skip_atom(next_alternate);
+				skip_alternate(next_alternate);
 				// Undo new captures on failure of an alternate
 				context->rollback_capture(initial_captures);
 			}
@@ -757,6 +754,13 @@ protected:
 		pattern++;
 	}
 
+	void		skip_alternate(PatternP& pattern)	// Skip a | and the atoms of that alternate
+	{
+		pattern++;
+		while (*pattern != '|' && *pattern != ')' && *pattern != '\0')
+			skip_atom(pattern);
+	}
+
 	const PatternP	skip_atom(PatternP& pattern)
 	{
 		switch (char rc = *pattern++)
@@ -789,9 +793,10 @@ protected:
 				pattern++;
 			break;
 
-		case '|':	// First or next alternate; skip to next alternate
-			while (*pattern != '|' && *pattern != ')' && *pattern != '\0')
-				skip_atom(pattern);
+		case '|':	// Skip all the alternates
+			pattern--;
+			while (*pattern == '|')
+				skip_alternate(pattern);
 			break;
 
 		case '?':	// Zero or one
-- 
2.43.0


From 88fcebd6b6626cfc39e9f2ae4ec7d8c40e989731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 57/84] fix: Pegexp \L and \U looked up Unicode characters
 beyond the end of the ctype table

---
 include/char_encoding.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 2fd8565..b0a906b 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -87,6 +87,8 @@ inline bool	isalnum(UCS4 c) { return UCS4IsAlphabetic(c) || UCS4IsDecimal(c); }
 inline UCS4	toupper(UCS4 c) { return UCS4ToUpper(c); }
 inline UCS4	tolower(UCS4 c) { return UCS4ToLower(c); }
 inline bool	isspace(UCS4 c) { return UCS4IsWhite(c); }
+inline bool	islower(UCS4 c) { return UCS4ToUpper(c) != c && UCS4ToLower(c) == c; }
+inline bool	isupper(UCS4 c) { return UCS4ToLower(c) != c && UCS4ToUpper(c) == c; }
 
 inline bool
 UCS4IsIllegal(UCS4 ucs4)	// Does this UCS4 character encode an illegal utf-8 byte?
-- 
2.43.0


From 63b3c44075bb1bc3f2c47b654737701a9025f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 58/84] fix: a Pegexp class range could not start with an
 escape, and skipping [\d-] passed its end

---
 include/pegexp.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 094a52a..092b53b 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -454,6 +454,11 @@ protected:
 		return rc;
 	}
 
+	static bool	at_property(PatternP pattern)
+	{
+		return pattern[0] == '\\' && pattern[1] != '\0' && strchr("adhLUsw", pattern[1]) != 0;
+	}
+
 	bool		char_property(PatternP& pattern, Char ch)
 	{
 		switch (char32_t esc = *pattern++)
@@ -490,8 +495,7 @@ protected:
 			Char	c1;
 
 			// Handle actual properties, not other escapes
-			char	esc = state.pattern[1];
-			if (*state.pattern == '\\' && isalpha(esc) && esc != 'x' && esc != 'u')
+			if (at_property(state.pattern))
 			{
 				state.pattern++;
 				if (char_property(state.pattern, ch))
@@ -775,8 +779,9 @@ protected:
 				pattern++;
 			while (*pattern != '\0' && *pattern != ']')
 			{
+				bool	property = at_property(pattern);
 				(void)literal_char(pattern);
-				if (*pattern == '-')
+				if (!property && *pattern == '-')
 				{
 					pattern++;
 					(void)literal_char(pattern);
-- 
2.43.0


From e454f2c5661ba01c6c89ee44b53d0d8515465c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 59/84] fix: Pegexp read beyond the end of an incomplete
 pattern

---
 include/pegexp.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 092b53b..7889f85 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -399,7 +399,7 @@ protected:
 			pattern--;
 			return 0;
 		}
-		if (rc != '\\')
+		if (rc != '\\' || *pattern == '\0')	// Not an escape, or there's nothing to escape
 			return rc;
 		rc = *pattern++;
 		if (rc >= '0' && rc <= '7')		// Octal
@@ -416,9 +416,11 @@ protected:
 				return 0;
 			if ((braces = (*pattern == '{')))
 				pattern++;
-			rc = unhex(*pattern++);
-			if (rc < 0)
+			int first = unhex(*pattern);
+			if (first < 0)
 				return 0;		// Error: invalid first hex digit
+			pattern++;
+			rc = first;
 			int second = unhex(*pattern++);
 			if (second >= 0)
 				rc = (rc << 4) | second;
@@ -551,8 +553,8 @@ protected:
 		switch (rc = *state.pattern++)
 		{
 		case '\0':	// End of expression
-			state.pattern--;
 		case ')':	// End of group
+			state.pattern--;
 			matched = true;
 			break;
 
@@ -769,6 +771,11 @@ protected:
 	{
 		switch (char rc = *pattern++)
 		{
+		case '\0':	// End of expression
+		case ')':	// End of group
+			pattern--;
+			break;
+
 		case '\\':	// Escaped literal char
 			pattern--;
 			(void)literal_char(pattern);
-- 
2.43.0


From 3759c2a40f18c246a2ae2dee5ff97eff28542c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 60/84] fix: Peg without captures did not compile, as its
 Context took Sources where Pegexp gives States

---
 include/peg.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 1a28516..d2a6705 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -61,6 +61,7 @@ class PegContextNoCapture
 public:
 	using	Match = _Match;
 	using	Source = typename Match::Source;
+	using	State = typename Match::State;
 	using	PegexpT = PegPegexp<PegContextNoCapture>;
 	using	Rule = PegRuleNoCapture<PegexpT>;
 	using	PegT = Peg<Source, Match, PegContextNoCapture>;
@@ -92,11 +93,11 @@ public:
 	// When an atom of a Pegexp fails, the atom (pointer to start and end) and Source location are passed here
 	void		record_failure(PatternP op, PatternP op_end, Source location) {}
 
-	Match		match_result(Source from, Source to)	// Capture the range of text
+	Match		match_result(State from, State to)	// Capture the range of text
 			{ return Match(from, to); }
 
-	Match		match_failure(Source at)
-			{ return Match(at, Source()); }
+	Match		match_failure(State at)
+			{ return Match(at, at); }
 
 	PegT*		peg;
 	PegContextNoCapture* 	parent;
-- 
2.43.0


From 8dbf8776b7c56783c111b2ce061d66000bc8c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 61/84] fix: Peg did not find a rule whose name is the start of
 another's, continued by a digit, space or -

---
 include/peg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index d2a6705..5202722 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -281,11 +281,11 @@ public:
 			[](const void* key, const void* r2) {
 				const char*	key_name = (const char*)key;
 				const char*	rule_name = ((const Rule*)r2)->name;
-				int		len = strlen(rule_name);
+				int		len = strcspn(key_name, ">");	// The key may be ended by a >
 
 				int		cval = strncmp(key_name, rule_name, len);
-				if (cval == 0 && (key_name[len] != '>' && key_name[len] != '\0'))
-					cval = 1;	// This rule has a shortened version of this key
+				if (cval == 0 && rule_name[len] != '\0')
+					cval = -1;	// This key is a shortened version of the rule's name
 				return cval;
 			}
 		);
-- 
2.43.0


From 0f349c5c4bd871cebd6fabfddf29cdd3c4df323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 62/84] fix: a Peg parse did not report how far it reached

---
 include/peg_ast.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 592a16a..2746331 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -223,7 +223,14 @@ public:
 	Match		match_result(State from, State to)
 	{
 		if (parent == 0)
+		{
+			if (furthermost_success < to.source)
+			{		// We succeeded beyond every recorded failure
+				furthermost_success = to.source;
+				failures.clear();
+			}
 			return Match(Variant(ast), furthermost_success, failures);
+		}
 		else if (capture_count() > 0)
 			return Match(ast, to.source);
 		else
@@ -231,7 +238,11 @@ public:
 	}
 
 	Match		match_failure(State at)
-	{ return Match(at, at); }
+	{
+		if (parent == 0)	// Report how far we reached and what we needed there
+			return Match(Variant(), furthermost_success, failures);
+		return Match(at, at);
+	}
 
 #if defined(PEG_TRACE)
 	int		depth()
-- 
2.43.0


From b26156d7fea227b239c1a6f8f59c8ea93c30ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 63/84] fix: a label on an atom of a Peg rule captured what the
 rule had captured so far, not the atom's text

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 7889f85..716588e 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -747,7 +747,7 @@ protected:
 			if (context->capture_disabled == 0)
 				(void)context->capture(
 					name, name_end-name,
-					context->match_result(start_state, state),
+					Match(start_state, state),
 					context->repetition_nesting > 0
 				);
 		}
-- 
2.43.0


From 588087e7f4b79d7b0a5763317c89a1efb21e64cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 64/84] fix: a Peg rule captured any label that starts with one
 it captures

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 2746331..68bc9aa 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -104,8 +104,12 @@ public:
 		if (!captures)
 			return false;
 		for (int i = 0; captures[i]; i++)
-			if (0 == strncmp(captures[i], label, strlen(captures[i])))
+		{
+			size_t	len = strlen(captures[i]);
+			if (0 == strncmp(captures[i], label, len)
+			 && !isalnum(label[len]) && label[len] != '_')	// The label ends there too
 				return true;
+		}
 		return false;
 	}
 };
-- 
2.43.0


From cebd05fd599b559026c1ed7b973d0d5152630d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 65/84] fix: a Peg rule could not undo some of its captures,
 and returned those of failed iterations and alternates

---
 include/peg_ast.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 68bc9aa..bc0fb61 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -162,6 +162,7 @@ public:
 		if (ast.contains(key))
 		{		// There are previous captures under this name
 			existing = ast[key];
+			captured.push({key, existing.type() == Variant::VarArray ? Captured::Appended : Captured::Converted});
 			if (existing.type() != Variant::VarArray)
 				existing = Variant(&existing, 1);	// Convert it to an array
 			VariantArray va = existing.as_variant_array();
@@ -169,8 +170,11 @@ public:
 			ast.put(key, va);	// replace it with this value
 			existing = ast[key];
 		}
-		else	// Insert the match as the first element in an array, or just as itself:
+		else
+		{	// Insert the match as the first element in an array, or just as itself:
+			captured.push({key, Captured::Inserted});
 			ast.insert(key, in_repetition ? Variant(&value, 1) : value);
+		}
 
 		num_captures++;
 		return 0;
@@ -181,18 +185,29 @@ public:
 		return num_captures;
 	}
 
-	// The grammar should not capture anything that rolls back except to zero, unless on failure:
 	void		rollback_capture(int count)
 	{
 		if (count >= num_captures)
 			return;
 		if (count == 0)
-		{		// We can rollback to zero, but not partway
+		{		// Undo everything
 			ast.clear();
+			captured.clear();
 			num_captures = 0;
 			return;
 		}
-		printf("REVISIT: Not rolling back to %d from %d\n", count, num_captures);
+		for (; num_captures > count; num_captures--)
+		{		// Undo the most recent capture
+			Captured	undo = captured.pull();
+			if (undo.effect == Captured::Inserted)
+			{
+				ast.remove(undo.key);
+				continue;
+			}
+			VariantArray	va = ast[undo.key].as_variant_array();
+			va.pull();
+			ast.put(undo.key, undo.effect == Captured::Converted ? va[0] : Variant(va));
+		}
 	}
 
 	void		record_failure(PatternP op, PatternP op_end, Source location)
@@ -275,7 +290,15 @@ public:
 	int		capture_disabled;	// Counter that bumps up from zero to disable captures
 
 protected:
+	// What each capture did to the ast, so it can be undone:
+	struct Captured
+	{
+		StrVal		key;
+		enum { Inserted, Converted, Appended } effect;
+	};
+
 	int		num_captures;
+	Array<Captured>	captured;
 	StrVariantMap	ast;
 
 	// The next two are populated only on the outermost Context, to be returned from the parse
-- 
2.43.0


From 5f0d56e67446a5f135d968e49cc176cec1713803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 66/84] fix: an Rx expression with a named group never matched

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 56d5835..71fdc96 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -397,7 +397,7 @@ next:
 		thread.station = instr.next;
 		TRACK(("\t\tthread %d saves end %d=%d\n", thread.thread_number, instr.capture_number, offset));
 		thread.result = thread.result.captureSet(instr.capture_number*2+1, offset);
-		break;
+		goto next;
 
 	case RxOp::RxoZero:
 		thread.result.counterPushZero(offset);
-- 
2.43.0


From 193be54dc1e98e498e2a6ee8220526c4b6d88ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 67/84] fix: RxProgram deleted the program it owns, an array,
 as a single object

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 71fdc96..2fd15a6 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -132,7 +132,7 @@ RxProgram::RxProgram(const char* _nfa, bool take_ownership)
 
 RxProgram::~RxProgram()
 {
-	if (nfa && nfa_owned) delete(nfa);
+	if (nfa && nfa_owned) delete[] nfa;
 }
 
 StrVal
-- 
2.43.0


From 4b69d4de1454885477d412ef647033d2b6939e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 68/84] fix: after an Rx look-ahead, anchors and captures used
 the position the look-ahead had reached

---
 rx/rxmatch.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 2fd15a6..e07f851 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -81,7 +81,7 @@ public:
 	RxMatch(const RxMatch& _tocopy);
 	~RxMatch();
 
-	const RxResult	matchAt(RxStationID start, StrValIndex& offset);
+	const RxResult	matchAt(RxStationID start, StrValIndex offset);
 
 private:
 	const RxProgram& program;		// The NFA to execute
@@ -439,7 +439,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -473,7 +473,7 @@ next:
  * Populate the RxMatch where necessary.
  */
 const RxResult
-RxMatch::matchAt(RxStationID start, StrValIndex& offset)
+RxMatch::matchAt(RxStationID start, StrValIndex offset)
 {
 	Thread*		thread_p;
 	RxDecoded	instr;
-- 
2.43.0


From a7afb33d90c24e398d54cd0f7314bf0293a80b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 69/84] fix: Rx dropped threads it needed, or aborted, in
 nested and repeated groups

The matcher limited the shunts on a path to RxMaxNesting, the threads to an estimate
of the compiler (asserting both), and the duplicates of a station to the minimum count of
the innermost repetition, so it failed to find matches that exist. A place is now visited
just once per text position for each combination of counter values.
---
 rx/rxmatch.cpp | 180 +++++++++++++++++++++----------------------------
 1 file changed, 77 insertions(+), 103 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index e07f851..5bc31f4 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -6,6 +6,7 @@
  */
 #include	<strregex.h>
 #include	<cstring>
+#include	<set>
 #include	<utility>
 
 #ifdef	TRACK_RESULTS
@@ -63,7 +64,7 @@ private:
 
 class RxMatch
 {
-	// It is possible there can be as many threads as Stations in the program.
+	// It is possible there can be as many threads as Stations in the program, times the counter values they have.
 	// Each cycle traverses an array of current threads, building an array for the next cycle.
 	struct Thread {
 		Thread();
@@ -89,11 +90,15 @@ private:
 	RxResult	result;			// Result from the successful thread
 
 	// Concurrent threads of execution:
-	Thread*		current_threads;	// The threads we're currently evaluating
-	RxStationID	current_count;		// How many of the above are populated
-	Thread*		next_threads;		// The threads that lead on from here
-	RxStationID	next_count;		// How many of the above are populated
-	void		addthread(Thread thread, StrValIndex offset, StrValIndex *shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed = 0);
+	std::vector<Thread>	current_threads;	// The threads we're currently evaluating
+	std::vector<Thread>	next_threads;		// The threads that lead on from here
+	void		addthread(Thread thread, StrValIndex offset);
+
+	// In each cycle, only the first thread to reach a place (with the same counters) can yield the preferred result.
+	std::vector<bool>	visited;		// The places that were reached without counters
+	std::set<std::vector<StrValIndex>> visited_counting;	// The places and counters of other threads
+	bool		first_visit(const Thread& thread);
+	void		next_cycle();
 };
 
 static int32_t zagzig(int32_t i)
@@ -259,28 +264,16 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 : program(_program)
 , target(_target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
 }
 
 RxMatch::RxMatch(const RxMatch& _tocopy)
 : program(_tocopy.program)
 , target(_tocopy.target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
 }
 
 RxMatch::~RxMatch()
 {
-	delete[] current_threads;
-	delete[] next_threads;
 }
 
 RxMatch::Thread::Thread()
@@ -303,60 +296,48 @@ RxMatch::Thread::Thread(RxStationID s, RxResult r, const Thread* predecessor)
 int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in debug traces
 #endif
 
-void
-RxMatch::addthread(Thread thread, StrValIndex offset, StrValIndex* shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed)
+bool
+RxMatch::first_visit(const Thread& thread)
 {
-	// Recursion control, prevents stack explosion on empty loops
-	for (int i = 0; i < num_shunt; i++)
-		if (shunts[i] == thread.station)
-		{
-			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
-			return;
-		}
-	assert(num_shunt < RxMaxNesting);
-	if (num_shunt == RxMaxNesting)
+	if (!thread.result.hasCounter())
 	{
-		TRACK(("\t\tthread %d would exceed nesting limit\n", thread.thread_number));
-		return;
+		if (thread.station >= visited.size())
+			visited.resize(thread.station+1, false);
+		if (visited[thread.station])
+			return false;
+		return visited[thread.station] = true;
 	}
-	shunts[num_shunt++] = thread.station;
 
-	int	duplicates = 0;
-	for (int i = 0; i < next_count; i++)
-	{
-		if (next_threads[i].station == thread.station)
-		{
-			if ((max_duplicates_allowed			// Check for an exact duplicate first
-				&& thread.result.countersSame(next_threads[i].result))
-			 || ++duplicates > max_duplicates_allowed)	// Or too many duplicates
-			{
-				// The above condition is not perfect - it fails with 5x nested counted repetitions for example.
-				// Failing to find a solution in such a pathological case doesn't bother me.
-				// Should we have a policy of deleting the duplicate with the lowest count?
+	std::vector<StrValIndex>	place(1, thread.station);
+	for (int i = 0; i < thread.result.counterNum(); i++)
+		place.push_back(thread.result.counterGet(i));
+	return visited_counting.insert(place).second;
+}
 
-#ifdef TRACK_RESULTS
-				TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
-				if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
-				TRACK((" of thread %d", next_threads[i].thread_number));
-				if (next_threads[i].result.hasCounter())
-				{
-					TRACK((" (counters"));
-					for (int i = 0; i < next_threads[i].result.counterNum(); i++)
-						TRACK((" %d", next_threads[i].result.counterGet(i)));
-					TRACK((")"));
-				}
-				TRACK(("\n"));
-#endif
-				return;		// We already have this thread
-			}
-		}
-	}
+void
+RxMatch::next_cycle()
+{
+	std::swap(current_threads, next_threads);
+	next_threads.clear();
+	visited.assign(visited.size(), false);
+	visited_counting.clear();
+}
+
+void
+RxMatch::addthread(Thread thread, StrValIndex offset)
+{
+	std::vector<Thread>	pending;	// Other threads to be added, the preferred one last
+	RxDecoded	instr;
 
 	/*
-	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
+	 * If the opcode at the new thread won't consume text, evaluate it by looping, leaving any other path pending
 	 */
-	RxDecoded	instr;
 next:
+	if (!first_visit(thread))
+	{
+		TRACK(("\t\tthread %d at %d is a duplicate\n", thread.thread_number, thread.station));
+		goto stopped;
+	}
 	program.decode(thread.station, instr);
 	switch (instr.op)
 	{
@@ -383,9 +364,9 @@ next:
 
 	case RxOp::RxoSplit:
 		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt);
-		addthread(Thread(instr.next, thread.result, &thread), offset, shunts, num_shunt);
-		break;
+		pending.push_back(Thread(instr.next, thread.result, &thread));
+		thread = Thread(instr.alternate, thread.result);
+		goto next;
 
 	case RxOp::RxoCaptureStart:
 		thread.station = instr.next;
@@ -406,26 +387,24 @@ next:
 
 	case RxOp::RxoCount:	// This instruction follows a repeated item, so the pre-incremented counter tells how many we've passed
 	{
-		RxResult::Counter	previous = thread.result.counterTop();
+		StrValIndex	counter = thread.result.counterTop().count;
 
-		short	counter = thread.result.counterIncr(offset);
+		// When there is no maximum, there's no need to count beyond the minimum
+		if (instr.repetition.max != 0 || counter < instr.repetition.min)
+			counter = thread.result.counterIncr(offset);
 
-		// Don't repeat unless the offset has increased since the last repeat (instead, just continue with next).
-		if (previous.offset == offset)
-			TRACK(("\t\tRepetition at shunt %d did not proceed from offset %d\n", thread.station, offset));
-
-		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
-		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt, instr.repetition.min);
-
-		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
-		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
+		if (counter >= instr.repetition.min)	// Reached minimum count
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			pending.push_back(Thread(instr.next, continuation, &thread));
+		}
+
+		if (instr.repetition.max == 0 || counter < instr.repetition.max)	// Greedily repeat
+		{
+			thread = Thread(instr.alternate, thread.result);
+			goto next;
 		}
-		thread.result.clear();
 	}
 		break;
 
@@ -439,11 +418,11 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt);
+			thread.station = instr.alternate;
+			goto next;
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
-		thread.result.clear();
 	}
 		break;
 
@@ -461,11 +440,15 @@ next:
 		}
 		TRACK(("\n"));
 #endif
-		assert(next_count < program.maxStation());
-		if (next_count < program.maxStation())
-			next_threads[next_count++] = thread;
-		// else the compiler let us down; silently ignore this possible path and hope something else matches correctly
+		next_threads.push_back(thread);
 	}
+
+stopped:
+	if (pending.empty())
+		return;
+	thread = pending.back();
+	pending.pop_back();
+	goto next;
 };
 
 /*
@@ -475,20 +458,16 @@ next:
 const RxResult
 RxMatch::matchAt(RxStationID start, StrValIndex offset)
 {
-	Thread*		thread_p;
+	std::vector<Thread>::iterator	thread_p;
 	RxDecoded	instr;
-	StrValIndex 	shunts[RxMaxNesting];	// Controls recursion in addthread
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
-	next_count = 0;
-	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, shunts, 0);
-	std::swap(current_threads, next_threads);
-	current_count = next_count;
-	next_count = 0;
-	for (; current_count > 0 && offset <= target.length(); offset++)
+	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset);
+	next_cycle();
+	for (; current_threads.size() > 0 && offset <= target.length(); offset++)
 	{
-		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, current_count, target.substr(offset, 1).asUTF8()));
-		for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
+		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, (int)current_threads.size(), target.substr(offset, 1).asUTF8()));
+		for (thread_p = current_threads.begin(); thread_p != current_threads.end(); thread_p++)
 		{
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
@@ -635,7 +614,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 
 			case succeeded:			// This instruction succeeded, so continue with the next one
 				TRACK(("succeeds\n"));
-				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, shunts, 0);
+				addthread(Thread(instr.next, thread_p->result, &*thread_p), offset+1);
 				break;
 
 			case accepted:			// This thread has matched
@@ -659,18 +638,13 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 			thread_p->result.clear();
 		}
 
-		std::swap(current_threads, next_threads);
-		current_count = next_count;
-		next_count = 0;
+		next_cycle();
 	}
 
 	// If we have a result, it's in `result`.
 	// If not, we ran out of threads that could move forward, or ran out of input to move forward on.
 	// REVISIT: Might it be useful to know on which Station(s) we ran out of input? Or callback to get more?
 
-	// Wipe old result references, we already copied the one we chose:
-	for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
-		thread_p->result.clear();
 	return result;
 }
 
-- 
2.43.0


From 6a697aa0fe99a759c36e75e81d956df17d74ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 70/84] fix: an Rx repetition with no minimum, like {,3},
 required one

The matcher now also continues past such a repetition before entering it.
---
 rx/rxmatch.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 5bc31f4..9348161 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -381,6 +381,14 @@ next:
 		goto next;
 
 	case RxOp::RxoZero:
+	{
+		RxDecoded	count;		// Find the RxoCount of this repetition
+		int		nested = 1;
+		for (count.next = instr.next; nested > 0; nested += (count.op == RxOp::RxoZero) - (count.op == RxOp::RxoCount))
+			program.decode(count.next, count);
+		if (count.repetition.min == 0)	// No repetition is required
+			pending.push_back(Thread(count.next, thread.result, &thread));
+	}
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
 		goto next;
-- 
2.43.0


From 73d7b1345e6d5051f14a58bb16daa11d188a592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 71/84] fix: RxCompiler continued after an error, replacing its
 message and offset

---
 rx/rxcompile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 9dff646..fa3d338 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -430,7 +430,10 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 		}
 		if (!ok || error_message)
+		{
 			error_offset = i;
+			break;
+		}
 	}
 	if (ok)
 		ok = flush();
-- 
2.43.0


From c83862ae14a4399aa10d2347bb7397c9689b23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 72/84] fix: RxCompiler gave no error message for an extra
 closing parenthesis

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index fa3d338..3847b9c 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -637,7 +637,7 @@ RxCompiler::compile(char*& nfa)
 				goto str_param;			// This string will be in the names table of RxoStart
 
 			case RxOp::RxoEndGroup:			// End of a group
-				if (nesting <= 0)
+				if (nesting <= 1)	// Only the whole expression is open
 				{
 					error_message = "Too many closing parentheses";
 					return false;
-- 
2.43.0


From 6a01806c5d02a38c391f35f45ca6101164ebd384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 73/84] fix: RxCompiler took a comma beyond an exact Rx
 repetition count as part of it

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 3847b9c..2964f50 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -170,7 +170,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			min = max = 0;
 			// Find the end of the first number:
 			close = param.find(',');
-			if (close < 0)
+			if (close < 0 || param.find('}') < close)
 				close = param.find('}'); // Just one number?
 			if (close < 0)
 			{
-- 
2.43.0


From 57afe34040a69109feb3e9ebc986e5e1e44e7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 74/84] fix: RxCompiler accepted Rx repetition counts that
 exceed the limit by a multiple of 65536

---
 rx/strregex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/strregex.h b/rx/strregex.h
index 5338b53..0e111e2 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -87,8 +87,8 @@ enum class RxOp: char
 
 struct RxRepetitionRange
 {
-	uint16_t	min;
-	uint16_t	max;	// Zero means no maximum
+	int		min;
+	int		max;	// Zero means no maximum
 };
 
 class	RxToken;	// Passes information between the lexer and the parser
-- 
2.43.0


From 6c8ae727744ac65e7f23baa42e54c79f08f33edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 75/84] fix: Rx took a NUL in the text for its end, and matched
 \0 at the end

---
 rx/rxmatch.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 9348161..e09a2ce 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -480,6 +480,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
 			UCS4		ch = target[offset];
+			bool		at_end = offset >= target.length();	// ch is zero, but the text may contain zeroes too
 			enum {
 				failed,
 				eof,
@@ -504,14 +505,14 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 			case RxOp::RxoAny:			// Any single char
 				// As long as we aren't at the end, all is good
 				// REVISIT: Add except-newline mode behaviour
-				if (ch != 0)
+				if (!at_end)
 					break;
 				step_status = eof;
 				break;
 
 			case RxOp::RxoChar:			// A specific UCS4 character
 				// REVISIT: Add case-insensitive mode behaviour
-				if (ch == instr.character)
+				if (ch == instr.character && !at_end)
 					break;
 				step_status = failed;
 				break;
@@ -519,7 +520,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 			case RxOp::RxoCharClass:		// Character class
 			case RxOp::RxoNegCharClass:		// Negated Character class
 			{
-				if (ch == 0)
+				if (at_end)
 				{
 					step_status = eof;
 					break;
@@ -545,7 +546,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 
 			case RxOp::RxoCharProperty:		// A character with a named Unicode property
 			{
-				if (ch == 0)
+				if (at_end)
 				{
 					step_status = eof;
 					break;
-- 
2.43.0


From 079fc293ce6b185aedda7b668f71f6d1f7963a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 76/84] fix: numeric escapes in Rx took signs, prefixes and
 white space for digits

---
 rx/rxcompile.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 2964f50..e8e4310 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -110,6 +110,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				}
 				return true;
 			};
+	auto		numeral = [this, &i](int radix, StrValIndex max) -> StrVal {	// Just the digits at i, up to a maximum
+				StrValIndex	n;
+				for (n = 0; n < max && i+n < re.length(); n++)
+				{
+					int	digit = UCS4HexDigit(re[i+n]);
+					if (digit < 0 || digit >= radix)
+						break;
+				}
+				return re.substr(i, n);
+			};
 
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
@@ -216,7 +226,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case '4': case '5': case '6': case '7':
 				if (!enabled(RxFeature::OctalChar))
 					goto simple_escape;
-				param = re.substr(i, 3);
+				param = numeral(8, 3);
 				ch = param.asInt32(&int_error, 8, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
@@ -230,7 +240,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!enabled(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
-				param = re.substr(++i, 2);
+				i++;
+				param = numeral(16, 2);
 				ch = param.asInt32(&int_error, 16, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
@@ -244,7 +255,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!enabled(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
-				param = re.substr(++i, 5);
+				i++;
+				param = numeral(16, 5);
 				ch = param.asInt32(&int_error, 16, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
-- 
2.43.0


From 6faadf6a2e8d25c9833e4cbac2982c7e18f6f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 77/84] fix: white space before an Rx repetition made it repeat
 all the preceding characters

---
 rx/rxcompile.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index e8e4310..8dbcad6 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -110,6 +110,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				}
 				return true;
 			};
+	auto		flush_repeated = [&delayed, flush, func]() {	// Only the last character will be repeated
+				StrValIndex	others = delayed.length()-1;
+				if (delayed.length() > 1)
+				{
+					if (!func(RxToken(RxOp::RxoLiteral, delayed.substr(0, others))))
+						return false;
+					delayed = delayed.substr(others);
+				}
+				return flush();
+			};
 	auto		numeral = [this, &i](int radix, StrValIndex max) -> StrVal {	// Just the digits at i, up to a maximum
 				StrValIndex	n;
 				for (n = 0; n < max && i+n < re.length(); n++)
@@ -149,7 +159,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
 			else
@@ -159,7 +169,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '*':
 			if (!supported(RxFeature::ZeroOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			if (enabled(RxFeature::ZeroOrMoreAny))
 				ok = func(RxToken(RxOp::RxoAny));
 			ok = func(RxToken(RxOp::RxoRepetition, 0, 0));
@@ -168,14 +178,14 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '+':
 			if (!supported(RxFeature::OneOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			ok = func(RxToken(RxOp::RxoRepetition, 1, 0));
 			break;
 
 		case '{':
 			if (!supported(RxFeature::CountRepetition))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			param = re.substr(++i);
 			min = max = 0;
 			// Find the end of the first number:
-- 
2.43.0


From 8d6bd9a9ff4ac5e74fded937bccc295f5d13e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 78/84] fix: an Rx group failed when a different kind of group
 was a rejected feature

---
 rx/rxcompile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 8dbcad6..62c34a5 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -397,7 +397,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			}
 
 			i += 2;	// Skip the '(?'
-			if (supported(RxFeature::Capture) && re[i] == '<')		// Capture
+			if (re[i] == '<' && supported(RxFeature::Capture))		// Capture
 			{
 				param = re.substr(++i);
 				close = param.find('>');
@@ -411,12 +411,12 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				ok = func(RxToken(RxOp::RxoNamedCapture, param));
 				break;
 			}
-			else if (supported(RxFeature::NonCapture) && re[i] == ':')	// Noncapturing group
+			else if (re[i] == ':' && supported(RxFeature::NonCapture))	// Noncapturing group
 			{
 				ok = func(RxToken(RxOp::RxoNonCapturingGroup));
 				break;
 			}
-			else if (supported(RxFeature::NegLookahead) && re[i] == '!') // Negative Lookahead
+			else if (re[i] == '!' && supported(RxFeature::NegLookahead)) // Negative Lookahead
 			{
 				ok = func(RxToken(RxOp::RxoNegLookahead));
 				break;
-- 
2.43.0


From a1c8358799ea0da3b7dd68a5d2681fec0f51ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 79/84] fix: RxCompiler did not reject the use of escapes that
 are rejected features

---
 rx/rxcompile.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 62c34a5..be6930a 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -225,16 +225,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '\\':		// Escape sequence
 			switch (ch = re[++i])
 			{
-			case 'b': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-			case 'e': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
-			case 'f': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
-			case 'n': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
-			case 't': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
-			case 'r': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
+			case 'b': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
+			case 'e': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
+			case 'f': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
+			case 'n': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
+			case 't': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
+			case 'r': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
 
 			case '0': case '1': case '2': case '3':	// Octal char constant
 			case '4': case '5': case '6': case '7':
-				if (!enabled(RxFeature::OctalChar))
+				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
 				param = numeral(8, 3);
 				ch = param.asInt32(&int_error, 8, &scanned);
@@ -247,7 +247,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'x':			// Hex byte (1 or 2 hex digits follow)
-				if (!enabled(RxFeature::HexChar))
+				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
 				i++;
@@ -262,7 +262,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'u':			// Unicode (1-5 hex digits follow)
-				if (!enabled(RxFeature::UnicodeChar))
+				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
 				i++;
@@ -280,7 +280,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case 's':			// Whitespace
 			case 'd':			// Digit
 			case 'h':			// Hexdigit
-				if (!enabled(RxFeature::Shorthand))
+				if (!supported(RxFeature::Shorthand))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				// REVISIT: Also support \w, etc
@@ -288,7 +288,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				break;
 
 			case 'p':			// Posix character type
-				if (!enabled(RxFeature::PropertyChars))
+				if (!supported(RxFeature::PropertyChars))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				if (re[++i] != '{')
-- 
2.43.0


From 0c60781a55ad7cd48368efc03398fa05e1d7701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 80/84] fix: RxCompiler ignored the Rx feature ZeroOrOneQuest

---
 rx/rxcompile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index be6930a..19c309f 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -159,6 +159,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
+			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
+				goto simple_char;
 			if (!(ok = flush_repeated())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
-- 
2.43.0


From 7b17d788144d9668de6835824a68a1096cbd6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 81/84] fix: RxCompiler allocated too little for programs whose
 size takes their offsets to another byte

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 19c309f..44a83cb 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -761,7 +761,7 @@ RxCompiler::compile(char*& nfa)
 	// The maximum size of the nfa is thus (bytes_required+offsets_required*offset_max_bytes)
 	// Now we know this, we know the maximum size of an actual offset and can get close to the actual NFA size.
 	// This might be a tad high as some offsets might shrink, but not by much.
-	bytes_required += offsets_required * UTF8Len(bytes_required+offsets_required*offset_max_bytes);
+	bytes_required += offsets_required * offset_max_bytes;
 	// printf("Allocating %d bytes for the NFA\n", bytes_required);
 
 	nfa = new UTF8[bytes_required+1];
-- 
2.43.0


From cfb12012f8eea9cd7a6f02a42876a92bda2a113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 82/84] fix: a NUL character in a regular expression no longer
 ends its program early

A compiled regular expression is a null-terminated string, but \0 (and a NUL in a class or a group name)
put a zero byte in the middle of it. Encode it as 0xC0 0x80, like the padded zeroes elsewhere.
---
 rx/rxcompile.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 44a83cb..5701f39 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -524,12 +524,24 @@ RxCompiler::compile(char*& nfa)
 	 */
 	StrValIndex	bytes_required = 0;	// Count how many bytes we will need
 	StrValIndex	offsets_required = 0;	// Count how many UTF8-encoded offsets we will need (these may vary in size)
+	// The NFA is a null-terminated string, so a NUL in a string takes an extra byte, to be stored as 0xC0 0x80
+	auto	nul_count =
+		[&](StrVal str) -> StrValIndex
+		{
+			StrValIndex	utf8_count, count = 0;
+			const UTF8*	sp = str.asUTF8(utf8_count);
+			for (; utf8_count > 0; utf8_count--, sp++)
+				if (*sp == '\0')
+					count++;
+			return count;
+		};
 	// Adjust for the size of a string to be emitted
 	auto	add_string_size =
 		[&](StrVal str)
 		{
 			StrValIndex	utf8_count;	// Used for sizing string storage
 			(void)str.asUTF8(utf8_count);
+			utf8_count += nul_count(str);		// Each NUL takes two bytes
 			bytes_required += UTF8Len(utf8_count);	// Length encoded as UTF-8
 			bytes_required += utf8_count;	// UTF8 bytes
 		};
@@ -597,6 +609,7 @@ RxCompiler::compile(char*& nfa)
 				is_atom = true;
 				bytes_required += instr.str.length();	// One RxoChar for each char
 				bytes_required += instr.str.numBytes();	// and the data
+				bytes_required += nul_count(instr.str);
 				// REVISIT: This is pessimistic. A string has one station plus the number of times its prefix re-occurs
 				station_count += instr.str.numBytes();
 				break;
@@ -813,9 +826,12 @@ RxCompiler::compile(char*& nfa)
 			const UTF8*	sp;		// The UTF8 bytes of a string we'll copy into the NFA
 			StrValIndex	utf8_count;	// Used for sizing string storage
 			sp = str.asUTF8(utf8_count);	// Get the bytes and byte count
-			UTF8Put(ep, utf8_count);	// Encode the byte count as UTF-8
-			memcpy(ep, sp, utf8_count);	// Output the bytes to the NFA
-			ep += utf8_count;		// And advance past them
+			UTF8Put(ep, utf8_count+nul_count(str));	// Encode the byte count as UTF-8
+			for (; utf8_count > 0; utf8_count--, sp++)	// Output the bytes to the NFA
+				if (*sp != '\0')
+					*ep++ = *sp;
+				else
+					UTF8PutPaddedZero(ep, 2);
 		};
 
 	auto	patch_value_at =
@@ -980,7 +996,10 @@ RxCompiler::compile(char*& nfa)
 				for (int i = 0; i < instr.str.length(); i++)
 				{		// Emit each character one at a time
 					*ep++ = (char)RxOp::RxoChar;
-					UTF8Put(ep, instr.str[i]);
+					if (instr.str[i] != '\0')
+						UTF8Put(ep, instr.str[i]);
+					else
+						UTF8PutPaddedZero(ep, 2);
 				}
 				break;
 
-- 
2.43.0


From 8f68601cf2e5cb91ee7a3aae8064dd8bcd1611c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 83/84] fix: scanning and searching a string with multi-byte
 characters no longer restarts at each character

---
 include/strval.h | 58 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 0f917ce..4c681b8 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -433,13 +433,11 @@ public:
 	// Access the characters and character value:
 	UCS4		operator[](int charNum) const
 			{
-				if (charNum == length())
-					return '\0';
-				const char*	cp = nthChar(charNum);
-				if (!cp)
-					return UCS4_NONE;
-				return body->isRawBinary() ? *cp : UTF8Get(cp);
+				Bookmark	unsaved = mark;
+				return charAt(charNum, unsaved);
 			}
+	UCS4		operator[](int charNum)		// Bookmarks the character, so finding others nearby is quick
+			{ return charAt(charNum, mark); }
 	const char*	asUTF8()	// Null terminated. Must unshare data if it's a substring with elided suffix
 			{
 				if (offset+length() < body->numChars() // Substring ends before body does
@@ -507,7 +505,8 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				Bookmark	place = mark;	// Where we're up to
+				while (n < length() && (up = nthChar(n, place)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -520,7 +519,8 @@ public:
 			{
 				Index		n = (before == -1 ? length() : before)-1; // First Index we'll look at
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				Bookmark	place = mark;	// Where we're up to
+				while ((bp = nthChar(n, place)) != 0)
 				{
 					if (ch == getChar(bp))
 						return n;		// Found at n
@@ -540,10 +540,11 @@ public:
 				Index		s1bytes;
 				const char*	s1start = s1.asUTF8(s1bytes);
 				const char*	up;
-				while (n <= last_start && (up = nthChar(n)) != 0)
+				Bookmark	place = mark, end_place = mark;	// Where we're up to
+				while (n <= last_start && (up = nthChar(n, place)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (nthChar(n+s1.length()) == up+s1bytes && memcmp(up, s1start, s1bytes) == 0)
+					if (nthChar(n+s1.length(), end_place) == up+s1bytes && memcmp(up, s1start, s1bytes) == 0)
 						return n;
 					n++;
 				}
@@ -560,10 +561,11 @@ public:
 				Index		s1bytes;
 				const char*	s1start = s1.asUTF8(s1bytes);
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				Bookmark	place = mark, end_place = mark;	// Where we're up to
+				while ((bp = nthChar(n, place)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (nthChar(n+s1.length()) == bp+s1bytes && memcmp(bp, s1start, s1bytes) == 0)
+					if (nthChar(n+s1.length(), end_place) == bp+s1bytes && memcmp(bp, s1start, s1bytes) == 0)
 						return n;
 					n--;
 				}
@@ -575,7 +577,8 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				Bookmark	place = mark;	// Where we're up to
+				while (n < length() && (up = nthChar(n, place)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -590,7 +593,8 @@ public:
 			{
 				Index		n = before == -1 ? length()-1 : before-1;	// First Index we'll look at
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				Bookmark	place = mark;	// Where we're up to
+				while ((bp = nthChar(n, place)) != 0)
 				{
 					UCS4	ch = getChar(bp);
 					for (Index i = 0; i < s1.length(); i++)
@@ -606,7 +610,8 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				Bookmark	place = mark;	// Where we're up to
+				while (n < length() && (up = nthChar(n, place)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -623,7 +628,8 @@ public:
 			{
 				Index		n = (before == -1 ? length() : before)-1;	// First Index we'll look at
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				Bookmark	place = mark;	// Where we're up to
+				while ((bp = nthChar(n, place)) != 0)
 				{
 					UCS4	ch = getChar(bp);
 					for (Index i = 0; i < s1.length(); i++)
@@ -793,6 +799,12 @@ protected:
 				Bookmark	unsaved = mark;
 				return body->nthChar(offset+char_num, unsaved);
 			}
+	const char*	nthChar(Index char_num, Bookmark& place) const	// The same, starting from (and updating) this place
+			{
+				if (char_num < 0 || char_num > length())
+					return 0;
+				return body->nthChar(offset+char_num, place);
+			}
 	const char*	nthChar(Index char_num)	// Return a pointer to the start of the nth character
 			{
 				if (char_num < 0 || char_num > length())
@@ -811,6 +823,15 @@ private:
 					return *cp++;
 				return UTF8Get(cp);
 			}
+	UCS4		charAt(int charNum, Bookmark& place) const
+			{
+				if (charNum == length())
+					return '\0';
+				const char*	cp = nthChar(charNum, place);
+				if (!cp)
+					return UCS4_NONE;
+				return body->isRawBinary() ? *cp : UTF8Get(cp);
+			}
 	void		copyBody()
 			{
 				// Copy only this slice of the body's data, and reset our offset to zero
@@ -820,8 +841,9 @@ private:
 				Index		prefix_bytes = cp - body->nthChar(0, mark); // How many leading bytes of the body we are eliding
 
 				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
-				mark.char_num = savemark.char_num - offset;	// Restore the bookmark
-				mark.byte_num = savemark.byte_num - prefix_bytes;
+				mark = savemark.char_num < offset		// Restore the bookmark, if it's in this substring
+					? Bookmark()
+					: Bookmark(savemark.char_num - offset, savemark.byte_num - prefix_bytes);
 				offset = 0;
 			}
 
-- 
2.43.0


From 5d18f1cb888202e42c9f1d5e9c9c8c94aa8b341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 84/84] fix: StrVal::format dropped arguments that are
 numbered, or follow a * for a size or precision

---
 include/strformat.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/strformat.h b/include/strformat.h
index fb8bde5..9feee2d 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -9,7 +9,6 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 	bool	leading_zeroes;	// Whether to pad with leading zeroes
 	int	d;		// A digit
 	int	a = 0;		// Arg index
-	int	numbered_arg;
 
 	Index	m = f.length();
 	for (Index i = 0; i < m; i++)
@@ -22,18 +21,22 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		}
 		c = f[++i];	// Skip the %
 
+		int	numbered_arg = 0;	// Unless it's numbered, a conversion uses the next argument
 		if (i+2 < m && (d = Digit(c, 10)) > 0 && f[i+1] == '$')
 		{		// Extract the argument sequence digit
 			numbered_arg = d;
 			i += 2;
-			c = f[++i];	// Skip ASD
+			c = f[i];	// Skip ASD
 		}
 
 		// Get the size
 		size = 0;
 		leading_zeroes = false;
 		if (c == '*')
+		{
 			size = -1;
+			c = f[++i];
+		}
 		else if ((d = Digit(c, 10)) >= 0)
 		{
 			if (d == 0)
@@ -49,7 +52,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 			c = f[++i];
 			if (c == '*')
+			{
 				prec = -1;
+				c = f[++i];
+			}
 			else if ((d = Digit(c, 10)) >= 0)
 			{
 				prec = d;
@@ -68,14 +74,14 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 		case 's':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_strval();
+			result += args[numbered_arg > 0 ? numbered_arg-1 : a++].as_strval();
 			break;
 
 		case 'd':
 		case 'f':
 		case 'g':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_json();
+			result += args[numbered_arg > 0 ? numbered_arg-1 : a++].as_json();
 			break;
 
 		default:
-- 
2.43.0

