From 141496d3f5479cae6709354039a56b2be36347d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 001/185] fix: when the error queue overflowed, the last but
 one slot was not shifted: one pending error was lost and another duplicated
 in its place

---
 DevIL/src-IL/src/il_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 08796f6..159c7df 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -29,7 +29,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
-		for (i = 0; i < IL_ERROR_STACK_SIZE - 2; i++) {
+		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
 			ilErrorNum[i] = ilErrorNum[i+1];
 		}
 		ilErrorPlace = IL_ERROR_STACK_SIZE - 1;
-- 
2.43.0


From bf1d50885af1dadb048a51ed98ebc9703640f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 002/185] fix: fetching a format string for a file header read
 beyond the end of short strings and wrote the terminator outside the buffer
 for long ones

---
 DevIL/src-IL/src/il_states.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 752624b..e55eb46 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -158,13 +158,15 @@ char *iClipString(char *String, ILuint MaxLen)
 		return NULL;
 
 	Length = ilCharStrLen(String);  //ilStrLen(String);
+	if (Length > MaxLen)
+		Length = MaxLen;
 
 	Clipped = (char*)ialloc((MaxLen + 1) * sizeof(char) /*sizeof(ILchar)*/);  // Terminating NULL makes it +1.
 	if (Clipped == NULL) {
 		return NULL;
 	}
 
-	memcpy(Clipped, String, MaxLen * sizeof(char) /*sizeof(ILchar)*/);
+	memcpy(Clipped, String, Length * sizeof(char) /*sizeof(ILchar)*/);
 	Clipped[Length] = 0;
 
 	return Clipped;
-- 
2.43.0


From 1fa84e5dad7272e4cd88301a2d9ba9ebd3b9f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 003/185] fix: internal queries of integer states pushed
 IL_NO_ERROR entries onto the error queue, which hid pending errors and
 displaced others

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index e55eb46..a6fa38c 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1188,7 +1188,7 @@ ILint iGetInt(ILenum Mode)
 	err = ilGetError();
 	if (r == -1 && err == IL_INVALID_ENUM)
 		ilSetError(IL_INTERNAL_ERROR);
-	else
+	else if (err != IL_NO_ERROR)
 		ilSetError(err); //restore error
 
 	return r;
-- 
2.43.0


From f3b56d29d350a2ebe76cbf9425a9830d49fce14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 004/185] fix: invalid values for IL_DXTC_FORMAT, IL_PCD_PICNUM
 and IL_PNG_ALPHA_INDEX were accepted

---
 DevIL/src-IL/src/il_states.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index a6fa38c..f77664b 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1103,7 +1103,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if (Param >= IL_DXT1 || Param <= IL_DXT5 || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_3DC || Param == IL_RXGB || Param == IL_ATI1N || Param == IL_DXT1A) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
@@ -1127,13 +1127,13 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_PCD_PICNUM:
-			if (Param >= 0 || Param <= 2) {
+			if (Param >= 0 && Param <= 2) {
 				ilStates[ilCurrentPos].ilPcdPicNum = Param;
 				return;
 			}
 			break;
 		case IL_PNG_ALPHA_INDEX:
-			if (Param >= -1 || Param <= 255) {
+			if (Param >= -1 && Param <= 255) {
 				ilStates[ilCurrentPos].ilPngAlphaIndex=Param;
 				return;
 			}
-- 
2.43.0


From bedc942c55085ac6fbd88cba2fb133abba6a597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 005/185] fix: setting IL_IMAGE_CUBEFLAGS raised
 IL_INVALID_PARAM although the value was set

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index f77664b..a9e8c22 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1093,7 +1093,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 				break;
 			}
 			iCurImage->CubeFlags = Param;
-			break;
+			return;
  
 		// Format specific values
 		case IL_BMP_RLE:
-- 
2.43.0


From d55cf8f3865d08d185a20453ce3f689dd5dcd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 006/185] fix: IL_PALETTE_BASE_TYPE reported IL_BGRA for every
 palette layout

---
 DevIL/src-IL/src/il_states.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index a9e8c22..f7de891 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -656,16 +656,22 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              {
                   case IL_PAL_RGB24:
                       *Param = IL_RGB;
+                      break;
                   case IL_PAL_RGB32:
                       *Param = IL_RGBA; // Not sure
+                      break;
                   case IL_PAL_RGBA32:
                       *Param = IL_RGBA;
+                      break;
                   case IL_PAL_BGR24:
                       *Param = IL_BGR;
+                      break;
                   case IL_PAL_BGR32:
                       *Param = IL_BGRA; // Not sure
+                      break;
                   case IL_PAL_BGRA32:
                       *Param = IL_BGRA;
+                      break;
              }
              break;
         default:
-- 
2.43.0


From 6358d159218904e46b4541e6a56ec5b319eed173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 007/185] fix: IL_ACTIVE_FACE could not be queried

---
 DevIL/src-IL/src/il_states.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index f7de891..fe6ac7d 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -465,6 +465,7 @@ void ILAPIENTRY ilGetIntegerv(ILenum Mode, ILint *Param)
 		// Image specific values
 		case IL_ACTIVE_IMAGE:
 		case IL_ACTIVE_MIPMAP:
+		case IL_ACTIVE_FACE:
 		case IL_ACTIVE_LAYER:
 			*Param = iGetActiveNum(Mode);
 			break;
-- 
2.43.0


From d19529161102fe59ab2976877838b29f5f04a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 008/185] fix: ilPushAttrib discarded all pending errors and
 reset the hints, which ilPopAttrib does not restore

---
 DevIL/src-IL/include/il_internal.h | 1 +
 DevIL/src-IL/src/il_stack.cpp      | 3 ++-
 DevIL/src-IL/src/il_states.cpp     | 9 +++++----
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4ea71a4..a7afc2d 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -179,6 +179,7 @@ ILuint		ilStrLen(ILconst_string Str);
 ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
 void					ilDefaultStates(void);
+void					ilDefaultHints(void);
 ILenum					iGetHint(ILenum Target);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 286e898..c80554a 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -616,8 +616,9 @@ void ILAPIENTRY ilInit()
 		return;
 	
 	//ilSetMemory(NULL, NULL);  Now useless 3/4/2006 (due to modification in il_alloc.c)
-	ilSetError(IL_NO_ERROR);
 	ilDefaultStates();  // Set states to their defaults.
+	ilDefaultHints();
+	while (ilGetError() != IL_NO_ERROR);
 	// Sets default file-reading callbacks.
 	ilResetRead();
 	ilResetWrite();
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index fe6ac7d..f0e93c1 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -92,14 +92,15 @@ void ilDefaultStates()
 	ilStates[ilCurrentPos].ilUseNVidiaDXT = IL_FALSE;
 	ilStates[ilCurrentPos].ilUseSquishDXT = IL_FALSE;
 
+	return;
+}
 
 
-
+//! Set the hints to their defaults.
+void ilDefaultHints()
+{
 	ilHints.MemVsSpeedHint = IL_FASTEST;
 	ilHints.CompressHint = IL_USE_COMPRESSION;
-
-	while (ilGetError() != IL_NO_ERROR);
-
 	return;
 }
 
-- 
2.43.0


From defb8a88385709069e682913d3a2d26c1ba31749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 009/185] fix: ilPushAttrib with the format-specific group
 crashed copying strings that were not set

---
 DevIL/src-IL/src/il_states.cpp | 65 +++++++++++++---------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index f0e93c1..56f2c98 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -773,6 +773,20 @@ ILboolean ILAPIENTRY ilCompressFunc(ILenum Mode)
 }
 
 
+// Copies a format-specific string, which may not be set at all.
+static char *iDupStateString(const char *String)
+{
+	char *Copy;
+
+	if (String == NULL)
+		return NULL;
+	Copy = (char*)ialloc(ilCharStrLen(String) + 1);
+	if (Copy != NULL)
+		strcpy(Copy, String);
+	return Copy;
+}
+
+
 //! Pushes the states indicated by Bits onto the state stack
 void ILAPIENTRY ilPushAttrib(ILuint Bits)
 {
@@ -828,46 +842,17 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
 
 		// Strings
-		if (ilStates[ilCurrentPos].ilTgaId)
-			ifree(ilStates[ilCurrentPos].ilTgaId);
-		if (ilStates[ilCurrentPos].ilTgaAuthName)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-		if (ilStates[ilCurrentPos].ilTgaAuthComment)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-		if (ilStates[ilCurrentPos].ilPngAuthName)
-			ifree(ilStates[ilCurrentPos].ilPngAuthName);
-		if (ilStates[ilCurrentPos].ilPngTitle)
-			ifree(ilStates[ilCurrentPos].ilPngTitle);
-		if (ilStates[ilCurrentPos].ilPngDescription)
-			ifree(ilStates[ilCurrentPos].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		if (ilStates[ilCurrentPos].ilTifDescription)
-			ifree(ilStates[ilCurrentPos].ilTifDescription);
-		if (ilStates[ilCurrentPos].ilTifHostComputer)
-			ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-		if (ilStates[ilCurrentPos].ilTifDocumentName)
-			ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-		if (ilStates[ilCurrentPos].ilTifAuthName)
-			ifree(ilStates[ilCurrentPos].ilTifAuthName);
-
-		if (ilStates[ilCurrentPos].ilCHeader)
-			ifree(ilStates[ilCurrentPos].ilCHeader);
-
-		ilStates[ilCurrentPos].ilTgaId = strdup(ilStates[ilCurrentPos-1].ilTgaId);
-		ilStates[ilCurrentPos].ilTgaAuthName = strdup(ilStates[ilCurrentPos-1].ilTgaAuthName);
-		ilStates[ilCurrentPos].ilTgaAuthComment = strdup(ilStates[ilCurrentPos-1].ilTgaAuthComment);
-		ilStates[ilCurrentPos].ilPngAuthName = strdup(ilStates[ilCurrentPos-1].ilPngAuthName);
-		ilStates[ilCurrentPos].ilPngTitle = strdup(ilStates[ilCurrentPos-1].ilPngTitle);
-		ilStates[ilCurrentPos].ilPngDescription = strdup(ilStates[ilCurrentPos-1].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		ilStates[ilCurrentPos].ilTifDescription = strdup(ilStates[ilCurrentPos-1].ilTifDescription);
-		ilStates[ilCurrentPos].ilTifHostComputer = strdup(ilStates[ilCurrentPos-1].ilTifHostComputer);
-		ilStates[ilCurrentPos].ilTifDocumentName = strdup(ilStates[ilCurrentPos-1].ilTifDocumentName);
-		ilStates[ilCurrentPos].ilTifAuthName = strdup(ilStates[ilCurrentPos-1].ilTifAuthName);
-
-		ilStates[ilCurrentPos].ilCHeader = strdup(ilStates[ilCurrentPos-1].ilCHeader);
+		ilStates[ilCurrentPos].ilTgaId = iDupStateString(ilStates[ilCurrentPos-1].ilTgaId);
+		ilStates[ilCurrentPos].ilTgaAuthName = iDupStateString(ilStates[ilCurrentPos-1].ilTgaAuthName);
+		ilStates[ilCurrentPos].ilTgaAuthComment = iDupStateString(ilStates[ilCurrentPos-1].ilTgaAuthComment);
+		ilStates[ilCurrentPos].ilPngAuthName = iDupStateString(ilStates[ilCurrentPos-1].ilPngAuthName);
+		ilStates[ilCurrentPos].ilPngTitle = iDupStateString(ilStates[ilCurrentPos-1].ilPngTitle);
+		ilStates[ilCurrentPos].ilPngDescription = iDupStateString(ilStates[ilCurrentPos-1].ilPngDescription);
+		ilStates[ilCurrentPos].ilTifDescription = iDupStateString(ilStates[ilCurrentPos-1].ilTifDescription);
+		ilStates[ilCurrentPos].ilTifHostComputer = iDupStateString(ilStates[ilCurrentPos-1].ilTifHostComputer);
+		ilStates[ilCurrentPos].ilTifDocumentName = iDupStateString(ilStates[ilCurrentPos-1].ilTifDocumentName);
+		ilStates[ilCurrentPos].ilTifAuthName = iDupStateString(ilStates[ilCurrentPos-1].ilTifAuthName);
+		ilStates[ilCurrentPos].ilCHeader = iDupStateString(ilStates[ilCurrentPos-1].ilCHeader);
 	}
 
 	return;
-- 
2.43.0


From 3d68f702f7a3cb85097c696f99f35e65b559ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 010/185] fix: format-specific strings were allocated outside
 the registered allocator, and leaked by ilPopAttrib and ilShutDown

---
 DevIL/src-IL/include/il_internal.h |  1 +
 DevIL/src-IL/src/il_stack.cpp      |  1 +
 DevIL/src-IL/src/il_states.cpp     | 91 ++++++++++++++++++++++--------
 3 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index a7afc2d..8819351 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -180,6 +180,7 @@ ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
 void					ilDefaultStates(void);
 void					ilDefaultHints(void);
+void					ilFreeStates(void);
 ILenum					iGetHint(ILenum Target);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index c80554a..29f912b 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -667,6 +667,7 @@ void ILAPIENTRY ilShutDown()
 	ImageStack = NULL;
 	LastUsed = 0;
 	StackSize = 0;
+	ilFreeStates();
 	IsInit = IL_FALSE;
 	return;
 }
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 56f2c98..6c374ba 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -40,6 +40,60 @@ char* _ilSaveExt		= (char*)"" IL_BMP_EXT IL_CHEAD_EXT IL_DDS_EXT IL_EXR_EXT
 									IL_WBMP_EXT;
 
 
+// Copies a format-specific string, which may not be set at all.
+static char *iDupStateString(const char *String)
+{
+	char *Copy;
+
+	if (String == NULL)
+		return NULL;
+	Copy = (char*)ialloc(ilCharStrLen(String) + 1);
+	if (Copy != NULL)
+		strcpy(Copy, String);
+	return Copy;
+}
+
+
+// Frees the format-specific strings of one level of the state stack.
+static void iFreeStateStrings(ILuint Pos)
+{
+	ifree(ilStates[Pos].ilTgaId);
+	ilStates[Pos].ilTgaId = NULL;
+	ifree(ilStates[Pos].ilTgaAuthName);
+	ilStates[Pos].ilTgaAuthName = NULL;
+	ifree(ilStates[Pos].ilTgaAuthComment);
+	ilStates[Pos].ilTgaAuthComment = NULL;
+	ifree(ilStates[Pos].ilPngAuthName);
+	ilStates[Pos].ilPngAuthName = NULL;
+	ifree(ilStates[Pos].ilPngTitle);
+	ilStates[Pos].ilPngTitle = NULL;
+	ifree(ilStates[Pos].ilPngDescription);
+	ilStates[Pos].ilPngDescription = NULL;
+	ifree(ilStates[Pos].ilTifDescription);
+	ilStates[Pos].ilTifDescription = NULL;
+	ifree(ilStates[Pos].ilTifHostComputer);
+	ilStates[Pos].ilTifHostComputer = NULL;
+	ifree(ilStates[Pos].ilTifDocumentName);
+	ilStates[Pos].ilTifDocumentName = NULL;
+	ifree(ilStates[Pos].ilTifAuthName);
+	ilStates[Pos].ilTifAuthName = NULL;
+	ifree(ilStates[Pos].ilCHeader);
+	ilStates[Pos].ilCHeader = NULL;
+	return;
+}
+
+
+//! Frees everything the state stack holds and leaves only its first level.
+void ilFreeStates()
+{
+	ILuint i;
+	for (i = 0; i < IL_ATTRIB_STACK_MAX; i++)
+		iFreeStateStrings(i);
+	ilCurrentPos = 0;
+	return;
+}
+
+
 //! Set all states to their defaults.
 void ilDefaultStates()
 {
@@ -773,20 +827,6 @@ ILboolean ILAPIENTRY ilCompressFunc(ILenum Mode)
 }
 
 
-// Copies a format-specific string, which may not be set at all.
-static char *iDupStateString(const char *String)
-{
-	char *Copy;
-
-	if (String == NULL)
-		return NULL;
-	Copy = (char*)ialloc(ilCharStrLen(String) + 1);
-	if (Copy != NULL)
-		strcpy(Copy, String);
-	return Copy;
-}
-
-
 //! Pushes the states indicated by Bits onto the state stack
 void ILAPIENTRY ilPushAttrib(ILuint Bits)
 {
@@ -871,6 +911,7 @@ void ILAPIENTRY ilPopAttrib()
 	}
 
 	// Should we check here to see if ilCurrentPos is too large?
+	iFreeStateStrings(ilCurrentPos);
 	ilCurrentPos--;
 
 	return;
@@ -955,60 +996,60 @@ void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 		case IL_TGA_ID_STRING:
 			if (ilStates[ilCurrentPos].ilTgaId)
 				ifree(ilStates[ilCurrentPos].ilTgaId);
-			ilStates[ilCurrentPos].ilTgaId = strdup(String);
+			ilStates[ilCurrentPos].ilTgaId = iDupStateString(String);
 			break;
 		case IL_TGA_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilTgaAuthName)
 				ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-			ilStates[ilCurrentPos].ilTgaAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilTgaAuthName = iDupStateString(String);
 			break;
 		case IL_TGA_AUTHCOMMENT_STRING:
 			if (ilStates[ilCurrentPos].ilTgaAuthComment)
 				ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-			ilStates[ilCurrentPos].ilTgaAuthComment = strdup(String);
+			ilStates[ilCurrentPos].ilTgaAuthComment = iDupStateString(String);
 			break;
 		case IL_PNG_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilPngAuthName)
 				ifree(ilStates[ilCurrentPos].ilPngAuthName);
-			ilStates[ilCurrentPos].ilPngAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilPngAuthName = iDupStateString(String);
 			break;
 		case IL_PNG_TITLE_STRING:
 			if (ilStates[ilCurrentPos].ilPngTitle)
 				ifree(ilStates[ilCurrentPos].ilPngTitle);
-			ilStates[ilCurrentPos].ilPngTitle = strdup(String);
+			ilStates[ilCurrentPos].ilPngTitle = iDupStateString(String);
 			break;
 		case IL_PNG_DESCRIPTION_STRING:
 			if (ilStates[ilCurrentPos].ilPngDescription)
 				ifree(ilStates[ilCurrentPos].ilPngDescription);
-			ilStates[ilCurrentPos].ilPngDescription = strdup(String);
+			ilStates[ilCurrentPos].ilPngDescription = iDupStateString(String);
 			break;
 
 		//2003-09-01: added tif strings
 		case IL_TIF_DESCRIPTION_STRING:
 			if (ilStates[ilCurrentPos].ilTifDescription)
 				ifree(ilStates[ilCurrentPos].ilTifDescription);
-			ilStates[ilCurrentPos].ilTifDescription = strdup(String);
+			ilStates[ilCurrentPos].ilTifDescription = iDupStateString(String);
 			break;
 		case IL_TIF_HOSTCOMPUTER_STRING:
 			if (ilStates[ilCurrentPos].ilTifHostComputer)
 				ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-			ilStates[ilCurrentPos].ilTifHostComputer = strdup(String);
+			ilStates[ilCurrentPos].ilTifHostComputer = iDupStateString(String);
 			break;
 		case IL_TIF_DOCUMENTNAME_STRING:
 						if (ilStates[ilCurrentPos].ilTifDocumentName)
 				ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-			ilStates[ilCurrentPos].ilTifDocumentName = strdup(String);
+			ilStates[ilCurrentPos].ilTifDocumentName = iDupStateString(String);
 			break;
 		case IL_TIF_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilTifAuthName)
 				ifree(ilStates[ilCurrentPos].ilTifAuthName);
-			ilStates[ilCurrentPos].ilTifAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilTifAuthName = iDupStateString(String);
 			break;
 
 		case IL_CHEAD_HEADER_STRING:
 			if (ilStates[ilCurrentPos].ilCHeader)
 				ifree(ilStates[ilCurrentPos].ilCHeader);
-			ilStates[ilCurrentPos].ilCHeader = strdup(String);
+			ilStates[ilCurrentPos].ilCHeader = iDupStateString(String);
 			break;
 
 		default:
-- 
2.43.0


From b6bd502cb128b77984927f17c6707e687d7ca8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 011/185] fix: after ilShutDown the bound image still pointed
 to the freed image

---
 DevIL/src-IL/src/il_stack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 29f912b..98ac1ca 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -668,6 +668,9 @@ void ILAPIENTRY ilShutDown()
 	LastUsed = 0;
 	StackSize = 0;
 	ilFreeStates();
+	iCurImage = NULL;
+	CurName = 0;
+	ParentImage = IL_TRUE;
 	IsInit = IL_FALSE;
 	return;
 }
-- 
2.43.0


From c198796ba617d4c45dd31635c1453dc35c791045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 012/185] fix: the format-specific attribute group did not
 include the progressive JPEG and VTF compression settings

---
 DevIL/src-IL/src/il_states.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 6c374ba..d6fec27 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -876,10 +876,12 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilBmpRle = ilStates[ilCurrentPos-1].ilBmpRle;
 		ilStates[ilCurrentPos].ilSgiRle = ilStates[ilCurrentPos-1].ilSgiRle;
 		ilStates[ilCurrentPos].ilJpgFormat = ilStates[ilCurrentPos-1].ilJpgFormat;
+		ilStates[ilCurrentPos].ilJpgProgressive = ilStates[ilCurrentPos-1].ilJpgProgressive;
 		ilStates[ilCurrentPos].ilDxtcFormat = ilStates[ilCurrentPos-1].ilDxtcFormat;
 		ilStates[ilCurrentPos].ilPcdPicNum = ilStates[ilCurrentPos-1].ilPcdPicNum;
 
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
+		ilStates[ilCurrentPos].ilVtfCompression = ilStates[ilCurrentPos-1].ilVtfCompression;
 
 		// Strings
 		ilStates[ilCurrentPos].ilTgaId = iDupStateString(ilStates[ilCurrentPos-1].ilTgaId);
-- 
2.43.0


From 6ed72607facd5f6666aad77a5a1649e2c315f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 013/185] fix: detecting the type of a short file queued read
 errors of formats that were only probed

---
 DevIL/src-IL/include/il_internal.h |  7 +++++++
 DevIL/src-IL/src/il_error.cpp      | 22 ++++++++++++++++++---
 DevIL/src-IL/src/il_io.cpp         | 31 ++++++++++++++++++++++++++++--
 3 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 8819351..aa32207 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -178,6 +178,13 @@ ILstring	ilStrDup(ILconst_string Str);
 ILuint		ilStrLen(ILconst_string Str);
 ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
+#define IL_ERROR_STACK_SIZE 32
+typedef struct iErrorState {
+	ILenum	Num[IL_ERROR_STACK_SIZE];
+	ILint	Place;
+} iErrorState;
+void					iSaveErrors(iErrorState *State);
+void					iRestoreErrors(const iErrorState *State);
 void					ilDefaultStates(void);
 void					ilDefaultHints(void);
 void					ilFreeStates(void);
diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 159c7df..eb274e2 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -14,9 +14,6 @@
 #include "il_internal.h"
 
 
-#define IL_ERROR_STACK_SIZE 32  // Needed elsewhere?
-
-
 ILenum	ilErrorNum[IL_ERROR_STACK_SIZE];
 ILint	ilErrorPlace = (-1);
 
@@ -40,6 +37,25 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 }
 
 
+// Remembers the pending errors, so that errors that are no one's concern
+//  (when probing for the type of a file, for example) can be dropped again.
+void iSaveErrors(iErrorState *State)
+{
+	memcpy(State->Num, ilErrorNum, sizeof(ilErrorNum));
+	State->Place = ilErrorPlace;
+	return;
+}
+
+
+// Goes back to the pending errors remembered by iSaveErrors.
+void iRestoreErrors(const iErrorState *State)
+{
+	memcpy(ilErrorNum, State->Num, sizeof(ilErrorNum));
+	ilErrorPlace = State->Place;
+	return;
+}
+
+
 //! Gets the last error on the error stack
 ILenum ILAPIENTRY ilGetError(void)
 {
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 01f324d..edcb4e4 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -191,7 +191,7 @@ ILenum ILAPIENTRY ilDetermineType(ILconst_string FileName)
 }
 
 
-ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
+static ILenum iProbeTypeF(ILHANDLE File)
 {
 	if (File == NULL)
 		return IL_TYPE_UNKNOWN;
@@ -347,7 +347,21 @@ ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
 }
 
 
-ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
+ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
+{
+	iErrorState Errors;
+	ILenum Type;
+
+	// A format that does not match is not an error.
+	iSaveErrors(&Errors);
+	Type = iProbeTypeF(File);
+	iRestoreErrors(&Errors);
+
+	return Type;
+}
+
+
+static ILenum iProbeTypeL(const void *Lump, ILuint Size)
 {
 	if (Lump == NULL)
 		return IL_TYPE_UNKNOWN;
@@ -503,6 +517,19 @@ ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
 }
 
 
+ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
+{
+	iErrorState Errors;
+	ILenum Type;
+
+	iSaveErrors(&Errors);
+	Type = iProbeTypeL(Lump, Size);
+	iRestoreErrors(&Errors);
+
+	return Type;
+}
+
+
 ILboolean ILAPIENTRY ilIsValid(ILenum Type, ILconst_string FileName)
 {
 	if (FileName == NULL) {
-- 
2.43.0


From ae448847215745483c94a7dafe303c0594d0d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 014/185] fix: reading or seeking past either end of a memory
 buffer left the buffer or moved the position backwards

---
 DevIL/src-IL/src/il_files.cpp | 68 +++++++++++++++--------------------
 1 file changed, 29 insertions(+), 39 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 54726c3..ce2341b 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -424,9 +424,7 @@ ILboolean ILAPIENTRY iEofFile(void)
 
 ILboolean ILAPIENTRY iEofLump(void)
 {
-	if (ReadLumpSize)
-		return (ReadLumpPos >= ReadLumpSize);
-	return IL_FALSE;
+	return (ReadLumpPos >= ReadLumpSize);
 }
 
 
@@ -446,13 +444,9 @@ ILint ILAPIENTRY iGetcFile(void)
 
 ILint ILAPIENTRY iGetcLump(void)
 {
-	// If ReadLumpSize is 0, don't even check to see if we've gone past the bounds.
-	if (ReadLumpSize > 0) {
-		if (ReadLumpPos + 1 > ReadLumpSize) {
-			ReadLumpPos--;
-			ilSetError(IL_FILE_READ_ERROR);
-			return IL_EOF;
-		}
+	if (ReadLumpPos >= ReadLumpSize) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_EOF;
 	}
 
 	return *((ILubyte*)ReadLump + ReadLumpPos++);
@@ -515,26 +509,25 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number)
 {
-	ILuint i, ByteSize = IL_MIN( Size*Number, ReadLumpSize-ReadLumpPos);
+	ILuint	Avail, ByteSize, NumRead;
 
-	for (i = 0; i < ByteSize; i++) {
-		*((ILubyte*)Buffer + i) = *((ILubyte*)ReadLump + ReadLumpPos + i);
-		if (ReadLumpSize > 0) {  // ReadLumpSize is too large to care about apparently
-			if (ReadLumpPos + i > ReadLumpSize) {
-				ReadLumpPos += i;
-				if (i != Number)
-					ilSetError(IL_FILE_READ_ERROR);
-				return i;
-			}
-		}
-	}
+	if (Size == 0 || Number == 0)
+		return 0;
 
-	ReadLumpPos += i;
-	if (Size != 0)
-		i /= Size;
-	if (i != Number)
+	Avail = ReadLumpPos < ReadLumpSize ? ReadLumpSize - ReadLumpPos : 0;
+	if (Number <= Avail / Size)
+		ByteSize = Size * Number;
+	else
+		ByteSize = Avail;
+
+	memcpy(Buffer, (const ILubyte*)ReadLump + ReadLumpPos, ByteSize);
+	ReadLumpPos += ByteSize;
+
+	// Like fread(), returns the number of complete elements.
+	NumRead = ByteSize / Size;
+	if (NumRead != Number)
 		ilSetError(IL_FILE_READ_ERROR);
-	return i;
+	return NumRead;
 }
 
 
@@ -612,33 +605,30 @@ ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 // Returns 1 on error, 0 on success
 ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 {
+	ILint64 NewPos;
+
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)ReadLumpSize)
-				return 1;
-			ReadLumpPos = Offset;
+			NewPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (ReadLumpPos + Offset > ReadLumpSize)
-				return 1;
-			ReadLumpPos += Offset;
+			NewPos = (ILint64)ReadLumpPos + Offset;
 			break;
 
 		case IL_SEEK_END:
-			if (Offset > 0)
-				return 1;
-			// Should we use >= instead?
-			if (abs(Offset) > (ILint)ReadLumpSize)  // If ReadLumpSize == 0, too bad
-				return 1;
-			ReadLumpPos = ReadLumpSize + Offset;
+			NewPos = (ILint64)ReadLumpSize + Offset;
 			break;
 
 		default:
 			return 1;
 	}
 
+	if (NewPos < 0 || NewPos > (ILint64)ReadLumpSize)
+		return 1;
+	ReadLumpPos = (ILuint)NewPos;
+
 	return 0;
 }
 
-- 
2.43.0


From 06db30bad67092939bf43df09d3f01583c4a9b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 015/185] fix: loading from or saving to a file handle that is
 not at offset 0 mixed absolute and relative positions

---
 DevIL/src-IL/src/il_files.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index ce2341b..226d0f2 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -310,7 +310,7 @@ void iSetInputFile(ILHANDLE File)
 	iseek = iSeekRFile;
 	itell = iTellRFile;
 	FileRead = File;
-	ReadFileStart = itell();
+	ReadFileStart = TellRProc(FileRead);
 }
 
 
@@ -341,6 +341,7 @@ void iSetOutputFile(ILHANDLE File)
 	itellw = iTellWFile;
 	iwrite = iWriteFile;
 	FileWrite = File;
+	WriteFileStart = TellWProc(FileWrite);
 }
 
 
@@ -635,7 +636,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellRFile(void)
 {
-	return TellRProc(FileRead);
+	return TellRProc(FileRead) - ReadFileStart;
 }
 
 
@@ -753,7 +754,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellWFile(void)
 {
-	return TellWProc(FileWrite);
+	return TellWProc(FileWrite) - WriteFileStart;
 }
 
 
-- 
2.43.0


From c7591460849c185c52294a02c63ad9c43452583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 016/185] fix: writing to a memory buffer reported bytes
 instead of elements, did not report characters that no longer fit, ignored a
 buffer size of 0 and sought relative to the end of the buffer instead of the
 written data

---
 DevIL/src-IL/src/il_files.cpp | 64 +++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 226d0f2..1dd0295 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -39,7 +39,7 @@ ILHANDLE	FileRead = NULL, FileWrite = NULL;
 const void *ReadLump = NULL;
 void 		*WriteLump = NULL;
 ILuint		ReadLumpPos = 0, ReadLumpSize = 0, ReadFileStart = 0, WriteFileStart = 0;
-ILuint		WriteLumpPos = 0, WriteLumpSize = 0;
+ILuint		WriteLumpPos = 0, WriteLumpSize = 0, WriteLumpEnd = 0;
 
 fGetcProc	GetcProcCopy;
 fReadProc	ReadProcCopy;
@@ -372,6 +372,7 @@ void iSetOutputLump(void *Lump, ILuint Size)
 	WriteLump = Lump;
 	WriteLumpPos = 0;
 	WriteLumpSize = Size;
+	WriteLumpEnd = 0;
 }
 
 
@@ -668,9 +669,13 @@ ILint ILAPIENTRY iPutcFile(ILubyte Char)
 
 ILint ILAPIENTRY iPutcLump(ILubyte Char)
 {
-	if (WriteLumpPos >= WriteLumpSize)
+	if (WriteLumpPos >= WriteLumpSize) {
+		ilSetError(IL_FILE_WRITE_ERROR);
 		return IL_EOF;  // IL_EOF
+	}
 	*((ILubyte*)(WriteLump) + WriteLumpPos++) = Char;
+	if (WriteLumpPos > WriteLumpEnd)
+		WriteLumpEnd = WriteLumpPos;
 	return Char;
 }
 
@@ -689,24 +694,27 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 
 ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 {
-	ILuint SizeBytes = Size * Number;
-	ILuint i = 0;
+	ILuint	Avail, ByteSize, NumWritten;
 
-	for (; i < SizeBytes; i++) {
-		if (WriteLumpSize > 0) {
-			if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
-				ilSetError(IL_FILE_WRITE_ERROR);
-				WriteLumpPos += i;
-				return i;
-			}
-		}
+	if (Size == 0 || Number == 0)
+		return 0;
 
-		*((ILubyte*)WriteLump + WriteLumpPos + i) = *((ILubyte*)Buffer + i);
-	}
+	Avail = WriteLumpPos < WriteLumpSize ? WriteLumpSize - WriteLumpPos : 0;
+	if (Number <= Avail / Size)
+		ByteSize = Size * Number;
+	else
+		ByteSize = Avail;
+
+	memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, ByteSize);
+	WriteLumpPos += ByteSize;
+	if (WriteLumpPos > WriteLumpEnd)
+		WriteLumpEnd = WriteLumpPos;
 
-	WriteLumpPos += SizeBytes;
-	
-	return SizeBytes;
+	// Like fwrite(), returns the number of complete elements.
+	NumWritten = ByteSize / Size;
+	if (NumWritten != Number)
+		ilSetError(IL_FILE_WRITE_ERROR);
+	return NumWritten;
 }
 
 
@@ -721,33 +729,31 @@ ILint ILAPIENTRY iSeekWFile(ILint Offset, ILuint Mode)
 // Returns 1 on error, 0 on success
 ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 {
+	ILint64 NewPos;
+
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)WriteLumpSize)
-				return 1;
-			WriteLumpPos = Offset;
+			NewPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (WriteLumpPos + Offset > WriteLumpSize)
-				return 1;
-			WriteLumpPos += Offset;
+			NewPos = (ILint64)WriteLumpPos + Offset;
 			break;
 
 		case IL_SEEK_END:
-			if (Offset > 0)
-				return 1;
-			// Should we use >= instead?
-			if (abs(Offset) > (ILint)WriteLumpSize)  // If WriteLumpSize == 0, too bad
-				return 1;
-			WriteLumpPos = WriteLumpSize + Offset;
+			// The end of what has been written, not the end of the buffer.
+			NewPos = (ILint64)WriteLumpEnd + Offset;
 			break;
 
 		default:
 			return 1;
 	}
 
+	if (NewPos < 0 || NewPos > (ILint64)WriteLumpSize)
+		return 1;
+	WriteLumpPos = (ILuint)NewPos;
+
 	return 0;
 }
 
-- 
2.43.0


From 862764e58cbc0ab6c38d09fc66dd13ce5ecbf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 017/185] fix: cached reading of files handed out stale memory
 past the end of the file and lost track of the position after seeking

---
 DevIL/src-IL/src/il_files.cpp | 137 ++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 66 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 1dd0295..ad3a31d 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -57,7 +57,9 @@ void		(ILAPIENTRY *iclosewCopy)(ILHANDLE);
 
 ILboolean	UseCache = IL_FALSE;
 ILubyte		*Cache = NULL;
-ILuint		CacheSize, CachePos, CacheStartPos, CacheBytesRead;
+ILuint		CacheSize = 0, CachePos = 0, CacheStartPos = 0, CacheAvail = 0;
+
+static void	iDropCache(void);
 
 // "Fake" size functions
 //  Definitions are in il_size.c.
@@ -177,16 +179,9 @@ ILint ILAPIENTRY iDefaultGetc(ILHANDLE Handle)
 {
 	ILint Val;
 
-	if (!UseCache) {
-		Val = fgetc((FILE*)Handle);
-		if (Val == IL_EOF)
-			ilSetError(IL_FILE_READ_ERROR);
-	}
-	else {
-		Val = 0;
-		if (iread(&Val, 1, 1) != 1)
-			return IL_EOF;
-	}
+	Val = fgetc((FILE*)Handle);
+	if (Val == IL_EOF)
+		ilSetError(IL_FILE_READ_ERROR);
 	return Val;
 }
 
@@ -309,6 +304,7 @@ void iSetInputFile(ILHANDLE File)
 	iread = iReadFile;
 	iseek = iSeekRFile;
 	itell = iTellRFile;
+	iDropCache();
 	FileRead = File;
 	ReadFileStart = TellRProc(FileRead);
 }
@@ -420,6 +416,8 @@ void ipad(ILuint NumZeros)
 
 ILboolean ILAPIENTRY iEofFile(void)
 {
+	if (UseCache && CachePos < CacheAvail)
+		return IL_FALSE;
 	return EofProc((FILE*)FileRead);
 }
 
@@ -430,16 +428,32 @@ ILboolean ILAPIENTRY iEofLump(void)
 }
 
 
+// Reads the next part of the file into the cache.
+static ILboolean iFillCache(void)
+{
+	ILint NumRead;
+
+	CacheStartPos += CachePos;
+	CachePos = CacheAvail = 0;
+	NumRead = ReadProc(Cache, 1, CacheSize, FileRead);
+	if (NumRead <= 0)
+		return IL_FALSE;
+	CacheAvail = IL_MIN((ILuint)NumRead, CacheSize);
+
+	return IL_TRUE;
+}
+
+
 ILint ILAPIENTRY iGetcFile(void)
 {
 	if (!UseCache) {
 		return GetcProc(FileRead);
 	}
-	if (CachePos >= CacheSize) {
-		iPreCache(CacheSize);
+	if (CachePos >= CacheAvail && !iFillCache()) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_EOF;
 	}
 
-	CacheBytesRead++;
 	return Cache[CachePos++];
 }
 
@@ -468,39 +482,15 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 		return NumRead;
 	}
 
-	/*if (Cache == NULL || CacheSize == 0) {  // Shouldn't happen, but we check anyway.
-		return ReadProc(Buffer, Size, Number, FileRead);
-	}*/
-
-	if (BuffSize < CacheSize - CachePos) {
-		memcpy(Buffer, Cache + CachePos, BuffSize);
-		CachePos += BuffSize;
-		CacheBytesRead += BuffSize;
-		if (Size != 0)
-			BuffSize /= Size;
-		return BuffSize;
-	}
-	else {
-		while (TotalBytes < BuffSize) {
-			// If loop through more than once, after first, CachePos is 0.
-			if (TotalBytes + CacheSize - CachePos > BuffSize)
-				BytesCopied = BuffSize - TotalBytes;
-			else
-				BytesCopied = CacheSize - CachePos;
-
-			memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
-			TotalBytes += BytesCopied;
-			CachePos += BytesCopied;
-			if (TotalBytes < BuffSize) {
-				iPreCache(CacheSize);
-			}
-		}
+	while (TotalBytes < BuffSize) {
+		if (CachePos >= CacheAvail && !iFillCache())
+			break;  // End of the file
+		BytesCopied = IL_MIN(BuffSize - TotalBytes, CacheAvail - CachePos);
+		memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
+		TotalBytes += BytesCopied;
+		CachePos += BytesCopied;
 	}
 
-	// DW: Changed on 12-27-2008.  Was causing the position to go too far if the
-	//     cache was smaller than the buffer.
-	//CacheBytesRead += TotalBytes;
-	CacheBytesRead = CachePos;
 	if (Size != 0)
 		TotalBytes /= Size;
 	if (TotalBytes != Number)
@@ -541,9 +531,7 @@ ILboolean iPreCache(ILuint Size)
 		return IL_TRUE;
 	}
 
-	if (Cache) {
-		ifree(Cache);
-	}
+	iUnCache();
 
 	if (Size == 0) {
 		Size = 1;
@@ -554,23 +542,28 @@ ILboolean iPreCache(ILuint Size)
 		return IL_FALSE;
 	}
 
-	UseCache = IL_FALSE;
 	CacheStartPos = itell();
-	CacheSize = iread(Cache, 1, Size);
-	if (CacheSize != Size)
-		ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
-
-	//2003-09-09: uncommented the following line to prevent
-	//an infinite loop in ilPreCache()
 	CacheSize = Size;
-	CachePos = 0;
+	CachePos = CacheAvail = 0;
 	UseCache = IL_TRUE;
-	CacheBytesRead = 0;
 
 	return IL_TRUE;
 }
 
 
+// Throws the cache away without touching the file.
+static void iDropCache()
+{
+	CacheSize = 0;
+	CachePos = CacheAvail = 0;
+	if (Cache) {
+		ifree(Cache);
+		Cache = NULL;
+	}
+	UseCache = IL_FALSE;
+}
+
+
 void iUnCache()
 {
 	//changed 2003-09-01:
@@ -582,15 +575,9 @@ void iUnCache()
 	if (iread == iReadLump)
 		return;
 
-	CacheSize = 0;
-	CachePos = 0;
-	if (Cache) {
-		ifree(Cache);
-		Cache = NULL;
-	}
-	UseCache = IL_FALSE;
-
-	iseek(CacheStartPos + CacheBytesRead, IL_SEEK_SET);
+	ILuint Pos = CacheStartPos + CachePos;
+	iDropCache();
+	iseek(Pos, IL_SEEK_SET);
 
 	return;
 }
@@ -598,6 +585,22 @@ void iUnCache()
 
 ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 {
+	if (UseCache) {
+		ILint Ret;
+
+		// The file itself is ahead of what has been handed out from the cache.
+		if (Mode == IL_SEEK_CUR) {
+			Offset += CacheStartPos + CachePos;
+			Mode = IL_SEEK_SET;
+		}
+		Ret = SeekRProc(FileRead, Mode == IL_SEEK_SET ? Offset + ReadFileStart : Offset, Mode);
+		if (Ret == 0) {
+			CacheStartPos = TellRProc(FileRead) - ReadFileStart;
+			CachePos = CacheAvail = 0;
+		}
+		return Ret;
+	}
+
 	if (Mode == IL_SEEK_SET)
 		Offset += ReadFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
 	return SeekRProc(FileRead, Offset, Mode);
@@ -637,6 +640,8 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellRFile(void)
 {
+	if (UseCache)
+		return CacheStartPos + CachePos;
 	return TellRProc(FileRead) - ReadFileStart;
 }
 
-- 
2.43.0


From a76484edd76a184728c59ae15bb72d3b85ae7e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 018/185] fix: formatted output could overrun its fixed buffer

---
 DevIL/src-IL/src/il_files.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index ad3a31d..0baeefe 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -387,7 +387,7 @@ ILuint ILAPIENTRY ilprintf(const char *Line, ...)
 	ILuint	i;
 
 	va_start(VaLine, Line);
-	vsprintf(Buffer, Line, VaLine);
+	vsnprintf(Buffer, sizeof(Buffer), Line, VaLine);
 	va_end(VaLine);
 
 	i = ilCharStrLen(Buffer);
-- 
2.43.0


From aa8021e1ba06e096b94c4d38c559b5ae553c8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 019/185] fix: reading a number past the end of the data
 returned uninitialised memory

---
 DevIL/src-IL/src/il_endian.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 60a42f1..0c7ff2a 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -85,7 +85,7 @@ void iSwapDouble(ILdouble *d) {
 
 
 ILushort GetLittleUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUShort(&s);
@@ -94,7 +94,7 @@ ILushort GetLittleUShort() {
 }
 
 ILshort GetLittleShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapShort(&s);
@@ -103,7 +103,7 @@ ILshort GetLittleShort() {
 }
 
 ILuint GetLittleUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUInt(&i);
@@ -112,7 +112,7 @@ ILuint GetLittleUInt() {
 }
 
 ILint GetLittleInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapInt(&i);
@@ -121,7 +121,7 @@ ILint GetLittleInt() {
 }
 
 ILfloat GetLittleFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapFloat(&f);
@@ -130,7 +130,7 @@ ILfloat GetLittleFloat() {
 }
 
 ILdouble GetLittleDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapDouble(&d);
@@ -139,7 +139,7 @@ ILdouble GetLittleDouble() {
 }
 
 ILushort GetBigUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUShort(&s);
@@ -148,7 +148,7 @@ ILushort GetBigUShort() {
 }
 
 ILshort GetBigShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapShort(&s);
@@ -157,7 +157,7 @@ ILshort GetBigShort() {
 }
 
 ILuint GetBigUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUInt(&i);
@@ -166,7 +166,7 @@ ILuint GetBigUInt() {
 }
 
 ILint GetBigInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapInt(&i);
@@ -175,7 +175,7 @@ ILint GetBigInt() {
 }
 
 ILfloat GetBigFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapFloat(&f);
@@ -184,7 +184,7 @@ ILfloat GetBigFloat() {
 }
 
 ILdouble GetBigDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapDouble(&d);
-- 
2.43.0


From d670214bd0336e3386e8630f6bd5d7c1954f15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 020/185] fix: formats read bit by bit could not be loaded from
 memory

---
 DevIL/src-IL/src/il_bits.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_bits.cpp b/DevIL/src-IL/src/il_bits.cpp
index 3cf717f..2720bfd 100644
--- a/DevIL/src-IL/src/il_bits.cpp
+++ b/DevIL/src-IL/src/il_bits.cpp
@@ -40,14 +40,13 @@ BITFILE *bfile(ILHANDLE File)
 {
 	BITFILE *ToReturn = NULL;
 
-	if (File != NULL) {
-		ToReturn = (BITFILE*)ialloc(sizeof(BITFILE));
-		if (ToReturn != NULL) {
-			ToReturn->File = File;
-			ToReturn->BitPos = itell() << 3;
-			ToReturn->ByteBitOff = 8;
-			ToReturn->Buff = 0;
-		}
+	// File is NULL when reading from a memory lump.
+	ToReturn = (BITFILE*)ialloc(sizeof(BITFILE));
+	if (ToReturn != NULL) {
+		ToReturn->File = File;
+		ToReturn->BitPos = itell() << 3;
+		ToReturn->ByteBitOff = 8;
+		ToReturn->Buff = 0;
 	}
 
 	return ToReturn;
@@ -57,7 +56,7 @@ BITFILE *bfile(ILHANDLE File)
 // Closes an open BITFILE and frees memory for it.
 ILint bclose(BITFILE *BitFile)
 {
-	if (BitFile == NULL || BitFile->File == NULL)
+	if (BitFile == NULL)
 		return IL_EOF;
 
 	// Removed 01-26-2008.  The file will get closed later by
@@ -81,7 +80,7 @@ ILint bseek(BITFILE *BitFile, ILuint Offset, ILuint Mode)
 {
 	ILint KeepPos, Len;
 
-	if (BitFile == NULL || BitFile->File == NULL)
+	if (BitFile == NULL)
 		return 1;
 
 	switch (Mode)
-- 
2.43.0


From 3217a021db2d13d6e342e20cd72443531c686a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 021/185] fix: saving to a file handle reported failure
 whenever the number of bytes written was a multiple of 256

---
 DevIL/src-IL/src/il_io.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index edcb4e4..ca06bc5 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2394,7 +2394,7 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 {
-	ILboolean Ret;
+	ILuint Ret;
 
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -2500,10 +2500,7 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			return 0;
 	}
 
-	if (Ret == IL_FALSE)
-		return 0;
-
-	return itellw();
+	return Ret;
 }
 
 
-- 
2.43.0


From 5c2e3c30ff5c8a0fae9954af2a53d709fabbca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 022/185] fix: PCX images could only be saved by file name, not
 to a file handle or memory

---
 DevIL/src-IL/src/il_io.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index ca06bc5..e00935b 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2441,6 +2441,12 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			#endif
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			Ret = ilSavePcxF(File);
+			break;
+		#endif
+
 		#ifndef IL_NO_PNM
 		case IL_PNM:
 			Ret = ilSavePnmF(File);
@@ -2551,6 +2557,11 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 			return ilSaveJpegL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			return ilSavePcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_PNG
 		case IL_PNG:
 			return ilSavePngL(Lump, Size);
-- 
2.43.0


From e894dc4d660d12ec4f3f6195fd3c4ccf067d3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 023/185] fix: the size needed to save a VTF image could not be
 queried

---
 DevIL/src-IL/src/il_size.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 3cc8857..28a069a 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -169,6 +169,12 @@ ILuint ilDetermineSize(ILenum Type)
 			break;
 		#endif//IL_NO_TIF
 
+		#ifndef IL_NO_VTF
+		case IL_VTF:
+			ilSaveVtfL(NULL, 0);
+			break;
+		#endif//IL_NO_VTF
+
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
 			ilSaveWbmpL(NULL, 0);
-- 
2.43.0


From 08cb9c3fc213ecc6344389997c71a02b1231d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 024/185] fix: saving a TIFF image to memory or a file handle
 returned a wrong number of bytes

---
 DevIL/src-IL/src/il_tiff.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 4d9d117..2a039c2 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -907,6 +907,7 @@ ILuint ilSaveTiffF(ILHANDLE File)
 	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
+	iseekw(0, IL_SEEK_END);  // libtiff leaves the position at the start of the file.
 	return itellw() - Pos;  // Return the number of bytes written.
 }
 
@@ -914,10 +915,12 @@ ILuint ilSaveTiffF(ILHANDLE File)
 //! Writes a Tiff to a memory "lump"
 ILuint ilSaveTiffL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
+	iseekw(0, IL_SEEK_END);  // libtiff leaves the position at the start of the file.
 	return itellw() - Pos;  // Return the number of bytes written.
 }
 
-- 
2.43.0


From e62d8ea4267d5739e65a42d9cfa533a2776db4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 025/185] fix: saving reported success although writing to the
 file, handle or buffer had failed

---
 DevIL/src-IL/src/il_files.cpp | 21 ++++++++++++++++++---
 DevIL/src-IL/src/il_io.cpp    | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 0baeefe..f255b18 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -61,6 +61,9 @@ ILuint		CacheSize = 0, CachePos = 0, CacheStartPos = 0, CacheAvail = 0;
 
 static void	iDropCache(void);
 
+// Set when any write of the current save operation failed.
+ILboolean	iWriteFailed = IL_FALSE;
+
 // "Fake" size functions
 //  Definitions are in il_size.c.
 ILint		ILAPIENTRY iSizeSeek(ILint Offset, ILuint Mode);
@@ -234,7 +237,10 @@ ILHANDLE ILAPIENTRY iDefaultOpenW(ILconst_string FileName)
 
 void ILAPIENTRY iDefaultCloseW(ILHANDLE Handle)
 {
-	fclose((FILE*)Handle);
+	if (fclose((FILE*)Handle) != 0) {
+		iWriteFailed = IL_TRUE;
+		ilSetError(IL_FILE_WRITE_ERROR);
+	}
 	return;
 }
 
@@ -668,13 +674,19 @@ const ILubyte* ILAPIENTRY iGetLump(void) {
 
 ILint ILAPIENTRY iPutcFile(ILubyte Char)
 {
-	return PutcProc(Char, FileWrite);
+	ILint Ret = PutcProc(Char, FileWrite);
+	if (Ret == IL_EOF) {
+		iWriteFailed = IL_TRUE;
+		ilSetError(IL_FILE_WRITE_ERROR);
+	}
+	return Ret;
 }
 
 
 ILint ILAPIENTRY iPutcLump(ILubyte Char)
 {
 	if (WriteLumpPos >= WriteLumpSize) {
+		iWriteFailed = IL_TRUE;
 		ilSetError(IL_FILE_WRITE_ERROR);
 		return IL_EOF;  // IL_EOF
 	}
@@ -690,6 +702,7 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 	ILuint NumWritten;
 	NumWritten = WriteProc(Buffer, Size, Number, FileWrite);
 	if (NumWritten != Number) {
+		iWriteFailed = IL_TRUE;
 		ilSetError(IL_FILE_WRITE_ERROR);
 		return 0;
 	}
@@ -717,8 +730,10 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 
 	// Like fwrite(), returns the number of complete elements.
 	NumWritten = ByteSize / Size;
-	if (NumWritten != Number)
+	if (NumWritten != Number) {
+		iWriteFailed = IL_TRUE;
 		ilSetError(IL_FILE_WRITE_ERROR);
+	}
 	return NumWritten;
 }
 
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index e00935b..9d9e1d4 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -15,6 +15,11 @@
 #include "il_pal.h"
 #include <string.h>
 
+extern ILboolean iWriteFailed;
+static ILboolean iSaveByExtension(ILconst_string FileName);
+static ILboolean iSaveByType(ILenum Type, ILconst_string FileName);
+static ILuint iSaveToLump(ILenum Type, void *Lump, ILuint Size);
+
 
 // Returns a widened version of a string.
 // Make sure to free this after it is used.  Code help from
@@ -2281,6 +2286,13 @@ finish:
 	       the filename to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
+{
+	iWriteFailed = IL_FALSE;
+	return iSaveByType(Type, FileName) && !iWriteFailed;
+}
+
+
+static ILboolean iSaveByType(ILenum Type, ILconst_string FileName)
 {
 	switch (Type)
 	{
@@ -2401,6 +2413,7 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 		return 0;
 	}
 
+	iWriteFailed = IL_FALSE;
 	switch (Type)
 	{
 		#ifndef IL_NO_BMP
@@ -2506,7 +2519,7 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			return 0;
 	}
 
-	return Ret;
+	return iWriteFailed ? 0 : Ret;
 }
 
 
@@ -2519,6 +2532,8 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 {
+	ILuint Ret;
+
 	if (Lump == NULL) {
 		if (Size != 0) {
 			ilSetError(IL_INVALID_PARAM);
@@ -2530,6 +2545,14 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 		}
 	}
 
+	iWriteFailed = IL_FALSE;
+	Ret = iSaveToLump(Type, Lump, Size);
+	return iWriteFailed ? 0 : Ret;
+}
+
+
+static ILuint iSaveToLump(ILenum Type, void *Lump, ILuint Size)
+{
 	switch (Type)
 	{
 		#ifndef IL_NO_BMP
@@ -2623,6 +2646,14 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 	       the filename to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
+{
+	// Not all writers check every single write.
+	iWriteFailed = IL_FALSE;
+	return iSaveByExtension(FileName) && !iWriteFailed;
+}
+
+
+static ILboolean iSaveByExtension(ILconst_string FileName)
 {
 	ILstring Ext;
 	ILboolean	bRet = IL_FALSE;
-- 
2.43.0


From 67ed85be701d1552395a11504931f009abeb3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 026/185] fix: JPEG, GIF, PCX and PSP loaders popped an
 expected read error of their own, which lost the oldest pending error when
 the queue was full

---
 DevIL/src-IL/src/il_gif.cpp  | 4 +++-
 DevIL/src-IL/src/il_jpeg.cpp | 4 +++-
 DevIL/src-IL/src/il_pcx.cpp  | 4 +++-
 DevIL/src-IL/src/il_psp.cpp  | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index bf4013c..1df5586 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -237,6 +237,7 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 	ILuint		NumImages = 0, i;
 	ILint		input;
 	ILuint		PalOffset;
+	iErrorState	Errors;
 
 	OldImageDesc.ImageInfo = 0; // to initialize the data with an harmless value 
 	Gfx.Used = IL_TRUE;
@@ -253,6 +254,7 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 			DisposalMethod = (Gfx.Packed & 0x1C) >> 2;
 
 		//read image descriptor
+		iSaveErrors(&Errors);
 		ImageDesc.Separator = igetc();
 		if (ImageDesc.Separator != 0x2C) //end of image
 			break;
@@ -263,7 +265,7 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 		ImageDesc.ImageInfo = igetc();
 
 		if (ieof()) {
-			ilGetError();  // Gets rid of the IL_FILE_READ_ERROR that inevitably results.
+			iRestoreErrors(&Errors);  // Gets rid of the IL_FILE_READ_ERROR that inevitably results.
 			break;
 		}
 
diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index 4cc1648..14a3fb4 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -232,7 +232,9 @@ fill_input_buffer (j_decompress_ptr cinfo)
 {
 	iread_ptr src = (iread_ptr) cinfo->src;
 	ILint nbytes;
+	iErrorState Errors;
 
+	iSaveErrors(&Errors);
 	nbytes = iread(src->buffer, 1, INPUT_BUF_SIZE);
 
 	if (nbytes <= 0) {
@@ -248,7 +250,7 @@ fill_input_buffer (j_decompress_ptr cinfo)
 		return (boolean)IL_FALSE;
 	}
 	if (nbytes < INPUT_BUF_SIZE) {
-		ilGetError();  // Gets rid of the IL_FILE_READ_ERROR.
+		iRestoreErrors(&Errors);  // Gets rid of the IL_FILE_READ_ERROR.
 	}
 
 	src->pub.next_input_byte = src->buffer;
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 1ab0210..4c96d81 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -318,9 +318,11 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 
 	// Read in the palette
 	if (Header->Version == 5 && iCurImage->Bpp == 1) {
+		iErrorState Errors;
 		x = itell();
+		iSaveErrors(&Errors);
 		if (iread(&ByteHead, 1, 1) == 0) {  // If true, assume that we have a luminance image.
-			ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
+			iRestoreErrors(&Errors);  // Get rid of the IL_FILE_READ_ERROR.
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
 				ifree(iCurImage->Pal.Palette);
diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index d8c6669..0f4e0a3 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -248,10 +248,12 @@ ILboolean ParseChunks()
 {
 	BLOCKHEAD	Block;
 	ILuint		Pos;
+	iErrorState	Errors;
 
 	do {
+		iSaveErrors(&Errors);
 		if (iread(&Block, 1, sizeof(Block)) != sizeof(Block)) {
-			ilGetError();  // Get rid of the erroneous IL_FILE_READ_ERROR.
+			iRestoreErrors(&Errors);  // Get rid of the erroneous IL_FILE_READ_ERROR.
 			return IL_TRUE;
 		}
 		if (Header.MajorVersion == 3)
-- 
2.43.0


From 91087a1387149be8d9f92275b7a07236ce3ba3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 027/185] fix: setting a state string to the string returned by
 ilGetString read it after it was freed

---
 DevIL/src-IL/src/il_states.cpp | 57 ++++++++++++++--------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index d6fec27..34a2efd 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -986,6 +986,19 @@ ILenum iGetHint(ILenum Target)
 }
 
 
+//! Replaces a state string. The new string may be the old one itself.
+static void iSetStateString(char **State, const char *String)
+{
+	char *Copy = iDupStateString(String);
+	if (Copy == NULL)  // Out of memory: keep the old one.
+		return;
+	if (*State)
+		ifree(*State);
+	*State = Copy;
+	return;
+}
+
+
 void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 {
 	if (String == NULL) {
@@ -996,62 +1009,40 @@ void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 	switch (Mode)
 	{
 		case IL_TGA_ID_STRING:
-			if (ilStates[ilCurrentPos].ilTgaId)
-				ifree(ilStates[ilCurrentPos].ilTgaId);
-			ilStates[ilCurrentPos].ilTgaId = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilTgaId, String);
 			break;
 		case IL_TGA_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilTgaAuthName)
-				ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-			ilStates[ilCurrentPos].ilTgaAuthName = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilTgaAuthName, String);
 			break;
 		case IL_TGA_AUTHCOMMENT_STRING:
-			if (ilStates[ilCurrentPos].ilTgaAuthComment)
-				ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-			ilStates[ilCurrentPos].ilTgaAuthComment = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilTgaAuthComment, String);
 			break;
 		case IL_PNG_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilPngAuthName)
-				ifree(ilStates[ilCurrentPos].ilPngAuthName);
-			ilStates[ilCurrentPos].ilPngAuthName = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilPngAuthName, String);
 			break;
 		case IL_PNG_TITLE_STRING:
-			if (ilStates[ilCurrentPos].ilPngTitle)
-				ifree(ilStates[ilCurrentPos].ilPngTitle);
-			ilStates[ilCurrentPos].ilPngTitle = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilPngTitle, String);
 			break;
 		case IL_PNG_DESCRIPTION_STRING:
-			if (ilStates[ilCurrentPos].ilPngDescription)
-				ifree(ilStates[ilCurrentPos].ilPngDescription);
-			ilStates[ilCurrentPos].ilPngDescription = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilPngDescription, String);
 			break;
 
 		//2003-09-01: added tif strings
 		case IL_TIF_DESCRIPTION_STRING:
-			if (ilStates[ilCurrentPos].ilTifDescription)
-				ifree(ilStates[ilCurrentPos].ilTifDescription);
-			ilStates[ilCurrentPos].ilTifDescription = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilTifDescription, String);
 			break;
 		case IL_TIF_HOSTCOMPUTER_STRING:
-			if (ilStates[ilCurrentPos].ilTifHostComputer)
-				ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-			ilStates[ilCurrentPos].ilTifHostComputer = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilTifHostComputer, String);
 			break;
 		case IL_TIF_DOCUMENTNAME_STRING:
-						if (ilStates[ilCurrentPos].ilTifDocumentName)
-				ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-			ilStates[ilCurrentPos].ilTifDocumentName = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilTifDocumentName, String);
 			break;
 		case IL_TIF_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilTifAuthName)
-				ifree(ilStates[ilCurrentPos].ilTifAuthName);
-			ilStates[ilCurrentPos].ilTifAuthName = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilTifAuthName, String);
 			break;
 
 		case IL_CHEAD_HEADER_STRING:
-			if (ilStates[ilCurrentPos].ilCHeader)
-				ifree(ilStates[ilCurrentPos].ilCHeader);
-			ilStates[ilCurrentPos].ilCHeader = iDupStateString(String);
+			iSetStateString(&ilStates[ilCurrentPos].ilCHeader, String);
 			break;
 
 		default:
-- 
2.43.0


From 02ce6de4730952c6afb3e74e2b36ab9a4115c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 028/185] fix: an invalid ILUT_S3TC_FORMAT was stored as the
 maximum texture width instead of being refused

---
 DevIL/src-ILUT/src/ilut_states.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 0c88430..d305b67 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -270,6 +270,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 				ilutStates[ilutCurrentPos].ilutDXTCFormat = Param;
 				return;
 			}
+			break;
 
 //#ifdef ILUT_USE_OPENGL
 		case ILUT_MAXTEX_WIDTH:
-- 
2.43.0


From 5b5954df20c4e48ed8a8455308d9e1e16e547f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 029/185] fix: ILUT_GL_GEN_S3TC read back the value of
 ILUT_GL_USE_S3TC, and an unknown ILUT mode raised two errors

---
 DevIL/src-ILUT/src/ilut_states.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index d305b67..0350e48 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -228,7 +228,7 @@ void ILAPIENTRY ilutGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
 			break;
 		case ILUT_GL_GEN_S3TC:
-			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
+			*Param = ilutStates[ilutCurrentPos].ilutGenS3TC;
 			break;
 		case ILUT_S3TC_FORMAT:
 			*Param = ilutStates[ilutCurrentPos].ilutDXTCFormat;
@@ -334,6 +334,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 
 		default:
 			ilSetError(ILUT_INVALID_ENUM);
+			return;
 	}
 
 	ilSetError(IL_INVALID_PARAM);  // Parameter not in valid bounds.
-- 
2.43.0


From 740f483c63f7b8a4455a5a0e062f63673a6d2308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 030/185] fix: ilutPushAttrib did not keep most of the OpenGL
 and Direct3D settings it was asked to, and left the others with stale values

---
 DevIL/src-ILUT/src/ilut_states.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 0350e48..7bc4fb7 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -356,12 +356,23 @@ void ILAPIENTRY ilutPushAttrib(ILuint Bits)
 
 	//memcpy(&ilutStates[ilutCurrentPos], &ilutStates[ilutCurrentPos - 1], sizeof(ILUT_STATES));
 
+	ilutDefaultStates();
+
 	if (Bits & ILUT_OPENGL_BIT) {
 		ilutStates[ilutCurrentPos].ilutUsePalettes = ilutStates[ilutCurrentPos-1].ilutUsePalettes;
+		ilutStates[ilutCurrentPos].ilutForceIntegerFormat = ilutStates[ilutCurrentPos-1].ilutForceIntegerFormat;
 		ilutStates[ilutCurrentPos].ilutOglConv = ilutStates[ilutCurrentPos-1].ilutOglConv;
+		ilutStates[ilutCurrentPos].ilutDXTCFormat = ilutStates[ilutCurrentPos-1].ilutDXTCFormat;
+		ilutStates[ilutCurrentPos].ilutUseS3TC = ilutStates[ilutCurrentPos-1].ilutUseS3TC;
+		ilutStates[ilutCurrentPos].ilutGenS3TC = ilutStates[ilutCurrentPos-1].ilutGenS3TC;
+		ilutStates[ilutCurrentPos].ilutAutodetectTextureTarget = ilutStates[ilutCurrentPos-1].ilutAutodetectTextureTarget;
+		ilutStates[ilutCurrentPos].MaxTexW = ilutStates[ilutCurrentPos-1].MaxTexW;
+		ilutStates[ilutCurrentPos].MaxTexH = ilutStates[ilutCurrentPos-1].MaxTexH;
+		ilutStates[ilutCurrentPos].MaxTexD = ilutStates[ilutCurrentPos-1].MaxTexD;
 	}
 	if (Bits & ILUT_D3D_BIT) {
 		ilutStates[ilutCurrentPos].D3DMipLevels = ilutStates[ilutCurrentPos-1].D3DMipLevels;
+		ilutStates[ilutCurrentPos].D3DPool = ilutStates[ilutCurrentPos-1].D3DPool;
 		ilutStates[ilutCurrentPos].D3DAlphaKeyColor = ilutStates[ilutCurrentPos-1].D3DAlphaKeyColor;
 	}
 
-- 
2.43.0


From efdee437c98df6da9b30b11c433e23bf3fd82518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 031/185] fix: ILU_PLACEMENT could be set but not queried

---
 DevIL/src-ILU/src/ilu_states.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-ILU/src/ilu_states.cpp b/DevIL/src-ILU/src/ilu_states.cpp
index f3a998c..f8090a7 100644
--- a/DevIL/src-ILU/src/ilu_states.cpp
+++ b/DevIL/src-ILU/src/ilu_states.cpp
@@ -48,6 +48,10 @@ void ILAPIENTRY iluGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = iluFilter;
 			break;
 
+		case ILU_PLACEMENT:
+			*Param = iluPlacement;
+			break;
+
 		default:
 			ilSetError(ILU_INVALID_ENUM);
 	}
-- 
2.43.0


From 906ce269ec21a46377cfde1aba5828198a8dceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 032/185] fix: iluErrorString crashed before iluInit

---
 DevIL/src-ILU/src/ilu_error.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_error.cpp b/DevIL/src-ILU/src/ilu_error.cpp
index a954a00..d4d8151 100644
--- a/DevIL/src-ILU/src/ilu_error.cpp
+++ b/DevIL/src-ILU/src/ilu_error.cpp
@@ -22,9 +22,9 @@
 #include "ilu_error/ilu_err-spanish.h"
 
 
-ILconst_string *iluErrors;
-ILconst_string *iluLibErrors;
-ILconst_string *iluMiscErrors;
+ILconst_string *iluErrors = iluErrorStringsEnglish;
+ILconst_string *iluLibErrors = iluLibErrorStringsEnglish;
+ILconst_string *iluMiscErrors = iluMiscErrorStringsEnglish;
 #define ILU_NUM_LANGUAGES 8
 
 ILconst_string *iluErrorStrings[ILU_NUM_LANGUAGES] = {
-- 
2.43.0


From 1eb2abec4967466483af5c614fa36ec042dcbb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 033/185] fix: iluLoadImage loaded into the bound image and
 returned the name of an empty one

---
 DevIL/src-ILU/src/ilu_main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_main.cpp b/DevIL/src-ILU/src/ilu_main.cpp
index 535ae94..2a28b7f 100644
--- a/DevIL/src-ILU/src/ilu_main.cpp
+++ b/DevIL/src-ILU/src/ilu_main.cpp
@@ -58,14 +58,18 @@ void ILAPIENTRY iluInit()
 //#ifndef _WIN32_WCE
 ILuint ILAPIENTRY iluLoadImage(ILconst_string FileName)
 {
-	ILuint Id;
+	ILuint Id = 0, CurName;
 	ilGenImages(1, &Id);
 	if (Id == 0)
 		return 0;
+	CurName = ilGetCurName();
+	ilBindImage(Id);
 	if (!ilLoadImage(FileName)) {
+		ilBindImage(CurName);
 		ilDeleteImages(1, &Id);
 		return 0;
 	}
+	ilBindImage(CurName);
 	return Id;
 }
 //#endif//_WIN32_WCE
-- 
2.43.0


From ef4c47a6a1f02b77e696342eff62002a337f5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 034/185] fix: image creation accepted sizes that overflow and
 left new image data uninitialised

---
 DevIL/src-IL/src/il_devil.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c9eeb5d..3ca6507 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -19,11 +19,17 @@
 ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
-	if (BpcType == 0) {
+	if (BpcType == 0 || Bpp == 0) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
+	// The sizes of an image have to be representable.
+	if ((ILdouble)IL_MAX(Width, 1) * IL_MAX(Height, 1) * IL_MAX(Depth, 1) * Bpp * BpcType > (ILdouble)INT_MAX) {
+		ilSetError(IL_BAD_DIMENSIONS);
+		return IL_FALSE;
+	}
+
 	memset(Image, 0, sizeof(ILimage));
 
 	////
@@ -53,6 +59,9 @@ ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Heig
 	if (Data != NULL) {
 		memcpy(Image->Data, Data, Image->SizeOfData);
 	}
+	else {
+		imemclear(Image->Data, Image->SizeOfData);
+	}
 
 	return IL_TRUE;
 }
@@ -68,7 +77,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImage(ILuint Width, ILuint Height, ILuint Depth,
 		return NULL;
 	}
 
-	Image = (ILimage*)ialloc(sizeof(ILimage));
+	Image = (ILimage*)icalloc(1, sizeof(ILimage));
 	if (Image == NULL) {
 		return NULL;
 	}
@@ -94,7 +103,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 		return NULL;
 	}
 
-	Image = (ILimage*)ialloc(sizeof(ILimage));
+	Image = (ILimage*)icalloc(1, sizeof(ILimage));
 	if (Image == NULL) {
 		return NULL;
 	}
@@ -118,7 +127,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 	\param Bpp Number of channels (ex. 3 for RGB)
 	\param Format Enum of the desired format.  Any format values are accepted.
 	\param Type Enum of the desired type.  Any type values are accepted.
-	\param Data Specifies data that should be copied to the new image. If this parameter is NULL, no data is copied, and the new image data consists of undefined values.
+	\param Data Specifies data that should be copied to the new image. If this parameter is NULL, no data is copied, and the new image data is zeroed.
 	\exception IL_ILLEGAL_OPERATION No currently bound image.
 	\exception IL_INVALID_PARAM One of the parameters is incorrect, such as one of the dimensions being 0.
 	\exception IL_OUT_OF_MEMORY Could not allocate enough memory.
-- 
2.43.0


From 6211f45e71caaee02e5dd0df945c7da381d74b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 035/185] fix: ilTexImage released the image before knowing
 that the new one can be made

---
 DevIL/src-IL/src/il_devil.cpp | 73 +++++++++++++----------------------
 1 file changed, 27 insertions(+), 46 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 3ca6507..d279ab2 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -141,6 +141,8 @@ ILboolean ILAPIENTRY ilTexImage(ILuint Width, ILuint Height, ILuint Depth, ILuby
 // Internal version of ilTexImage.
 ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
+	ILimage NewImage;
+
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
@@ -148,11 +150,14 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 
 	////
 
-	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
-		ifree(Image->Pal.Palette);
+	// The old contents are only released when the new ones exist.
+	if (!ilInitImage(&NewImage, Width, Height, Depth, Bpp, Format, Type, Data)) {
+		return IL_FALSE;
 	}
 
+	// Not sure if we should be getting rid of the palette...
+	if (Image->Pal.Palette) ifree(Image->Pal.Palette);
+
 	ilCloseImage(Image->Mipmaps);
 	ilCloseImage(Image->Next);
 	ilCloseImage(Image->Faces);
@@ -163,15 +168,9 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 	if (Image->DxtcData) ifree(Image->DxtcData);
 	if (Image->Data)	 ifree(Image->Data);
 
-	////
-
-	//@TODO: Also check against format?
-	/*if (Width == 0 || Height == 0 || Depth == 0 || Bpp == 0) {
-		ilSetError(IL_INVALID_PARAM);
-	return IL_FALSE;
-	}*/
+	*Image = NewImage;
 
-	return ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data);
+	return IL_TRUE;
 }
 
 
@@ -196,13 +195,7 @@ ILboolean ILAPIENTRY ilTexImageSurface(ILuint Width, ILuint Height, ILuint Depth
 // Internal version of ilTexImageSurface.
 ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
-	ILimage* mips;
-	ILimage* next;
-	ILimage* faces;
-	ILimage* layers;
-	ILenum flags;
-	ILenum origin;
-	ILboolean retval;
+	ILimage NewImage;
 
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -211,42 +204,30 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 
 	////
 
-	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
-		ifree(Image->Pal.Palette);
+	// The old contents are only released when the new ones exist.
+	if (!ilInitImage(&NewImage, Width, Height, Depth, Bpp, Format, Type, Data)) {
+		return IL_FALSE;
 	}
 
+	// Not sure if we should be getting rid of the palette...
+	if (Image->Pal.Palette) ifree(Image->Pal.Palette);
+
 	if (Image->AnimList) ifree(Image->AnimList);
 	if (Image->Profile)  ifree(Image->Profile);
 	if (Image->DxtcData) ifree(Image->DxtcData);
 	if (Image->Data)	 ifree(Image->Data);
 
-	////
+	// Keep our chains.
+	NewImage.Mipmaps = Image->Mipmaps;
+	NewImage.Next = Image->Next;
+	NewImage.Faces = Image->Faces;
+	NewImage.Layers = Image->Layers;
+	NewImage.CubeFlags = Image->CubeFlags;
+	NewImage.Origin = Image->Origin;
 
-	//@TODO: Also check against format?
-	/*if (Width == 0 || Height == 0 || Depth == 0 || Bpp == 0) {
-	ilSetError(IL_INVALID_PARAM);
-	return IL_FALSE;
-	}*/
-
-	mips = Image->Mipmaps;
-	next = Image->Next;
-	faces = Image->Faces;
-	layers = Image->Layers;
-	flags = Image->CubeFlags;
-	origin = Image->Origin;
-
-	retval = ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data);
-
-	// reset our chains
-	Image->Mipmaps = mips;
-	Image->Next = next;
-	Image->Faces = faces;
-	Image->Layers = layers;
-	Image->CubeFlags = flags;
-	Image->Origin = origin;
-
-	return retval;
+	*Image = NewImage;
+
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From d2f0fdc22ea0efbc994527a66e27443f829d9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 036/185] fix: images could be created with a format that does
 not have their number of channels

---
 DevIL/src-IL/src/il_devil.cpp | 9 ++++++---
 DevIL/src-IL/src/il_pic.cpp   | 2 +-
 DevIL/src-IL/src/il_targa.cpp | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index d279ab2..c1872f7 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -19,7 +19,10 @@
 ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
-	if (BpcType == 0 || Bpp == 0) {
+	// Unknown formats (loaders without one pass 0) get the usual one for this number of channels.
+	if (ilGetBppFormat(Format) == 0)
+		Format = ilGetFormatBpp(Bpp);
+	if (BpcType == 0 || Bpp == 0 || ilGetBppFormat(Format) != Bpp) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
@@ -125,7 +128,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 	\param Height Specifies the new image height.  This cannot be 0.
 	\param Depth Specifies the new image depth.  This cannot be 0.
 	\param Bpp Number of channels (ex. 3 for RGB)
-	\param Format Enum of the desired format.  Any format values are accepted.
+	\param Format Enum of the desired format.  It has to have Bpp channels.
 	\param Type Enum of the desired type.  Any type values are accepted.
 	\param Data Specifies data that should be copied to the new image. If this parameter is NULL, no data is copied, and the new image data is zeroed.
 	\exception IL_ILLEGAL_OPERATION No currently bound image.
@@ -179,7 +182,7 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 \param Height Specifies the new image height.  This cannot be 0.
 \param Depth Specifies the new image depth.  This cannot be 0.
 \param NumChannels Number of channels (ex. 3 for RGB)
-\param Format Enum of the desired format.  Any format values are accepted.
+\param Format Enum of the desired format.  It has to have Bpp channels.
 \param Type Enum of the desired type.  Any type values are accepted.
 \param Data Specifies data that should be copied to the new image. If this parameter is NULL, no data is copied, and the new image data consists of undefined values.
 \exception IL_ILLEGAL_OPERATION No currently bound image.
diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index ea0ad58..d4d459e 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -218,7 +218,7 @@ ILboolean iLoadPicInternal()
 		}
 	}
 	else {  // No alpha channel
-		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 			Read = IL_FALSE;
 			goto finish;  // Have to destroy Channels first.
 		}
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 8cb0e06..793ec7c 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -418,7 +418,7 @@ ILboolean iReadBwTga(TARGAHEAD *Header)
 	// We assume that no palette is present, but it's possible...
 	//	Should we mess with it or not?
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	
-- 
2.43.0


From 05e5a281c737fd0993a8dde18346ee38eb6fadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 037/185] fix: ilGetClear wrote past BGR pixels, overflowed for
 32-bit types and confused luminance with alpha; ilClearImage read
 uninitialised memory for indexed images

---
 DevIL/src-IL/src/il_devil.cpp | 101 +++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 39 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c1872f7..58b74b4 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -367,7 +367,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					BytePtr[2] = (ILubyte)(ClearRed * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
 					BytePtr[0] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -378,15 +377,20 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
+					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
+					break;
+
+				case IL_ALPHA:
 					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
 					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					break;
 					
 				case IL_COLOUR_INDEX:
-					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					BytePtr[0] = 0;
 					break;
 					
 				default:
@@ -417,7 +421,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					ShortPtr[2] = (ILushort)(ClearRed * USHRT_MAX);
 					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
 					ShortPtr[0] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -428,6 +431,10 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
+					ShortPtr[0] = (ILushort)(ClearLum * USHRT_MAX);
+					break;
+
+				case IL_ALPHA:
 					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
@@ -437,7 +444,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_COLOUR_INDEX:
-					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
+					ShortPtr[0] = 0;
 					break;
 					
 				default:
@@ -452,43 +459,46 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 			switch (Format)
 			{
 				case IL_RGB:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
 					break;
 					
 				case IL_RGBA:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
+					IntPtr[3] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_BGR:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
 					break;
 					
 				case IL_BGRA:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
+					IntPtr[3] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearLum * UINT_MAX);
+					break;
+
+				case IL_ALPHA:
+					IntPtr[0] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
-					IntPtr[0] = (ILuint)(ClearLum * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearLum * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_COLOUR_INDEX:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = 0;
 					break;
 					
 				default:
@@ -518,7 +528,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					FloatPtr[2] = ClearRed;
 					FloatPtr[1] = ClearGreen;
 					FloatPtr[0] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
 					break;
 					
 				case IL_BGRA:
@@ -529,16 +538,20 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
+					FloatPtr[0] = ClearLum;
+					break;
+
+				case IL_ALPHA:
 					FloatPtr[0] = ClearAlpha;
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
 					FloatPtr[0] = ClearLum;
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[1] = ClearAlpha;
 					break;
 					
 				case IL_COLOUR_INDEX:
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[0] = 0;
 					break;
 					
 				default:
@@ -547,6 +560,16 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 			}
 				break;
 			
+		case IL_HALF:
+			{
+				ILfloat	Vals[4] = { 0, 0, 0, 0 };
+				ILuint	c;
+				ilGetClear(Vals, Format, IL_FLOAT);
+				for (c = 0; c < ilGetBppFormat(Format); c++)
+					((ILushort*)Colours)[c] = ilFloatToHalf(*(ILuint*)&Vals[c]);
+			}
+			break;
+
 		case IL_DOUBLE:
 			DblPtr = (ILdouble*)Colours;
 			switch (Format)
@@ -568,7 +591,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					DblPtr[2] = ClearRed;
 					DblPtr[1] = ClearGreen;
 					DblPtr[0] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
 					break;
 					
 				case IL_BGRA:
@@ -579,6 +601,10 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
+					DblPtr[0] = ClearLum;
+					break;
+
+				case IL_ALPHA:
 					DblPtr[0] = ClearAlpha;
 					break;
 					
@@ -588,7 +614,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_COLOUR_INDEX:
-					DblPtr[0] = ClearAlpha;
+					DblPtr[0] = 0;
 					break;
 					
 				default:
@@ -629,9 +655,8 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 	ILdouble	*DblPtr;
 	
 	NumBytes = Image->Bpp * Image->Bpc;
-	ilGetClear(Colours, Image->Format, Image->Type);
-	
 	if (Image->Format != IL_COLOUR_INDEX) {
+		ilGetClear(Colours, Image->Format, Image->Type);
 		switch (Image->Type)
 		{
 			case IL_BYTE:
@@ -646,6 +671,7 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 				
 			case IL_SHORT:
 			case IL_UNSIGNED_SHORT:
+			case IL_HALF:
 				ShortPtr = (ILushort*)Colours;
 				for (c = 0; c < NumBytes; c += Image->Bpc) {
 					for (i = c; i < Image->SizeOfData; i += NumBytes) {
@@ -684,22 +710,19 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 		}
 	}
 	else {
+		BytePtr = (ILubyte*)ialloc(4);
+		if (BytePtr == NULL) {
+			return IL_FALSE;
+		}
 		imemclear(Image->Data, Image->SizeOfData);
 		
 		if (Image->Pal.Palette)
 			ifree(Image->Pal.Palette);
-		Image->Pal.Palette = (ILubyte*)ialloc(4);
-		if (Image->Pal.Palette == NULL) {
-			return IL_FALSE;
-		}
-		
+		Image->Pal.Palette = BytePtr;
 		Image->Pal.PalType = IL_PAL_RGBA32;
 		Image->Pal.PalSize = 4;
 		
-		Image->Pal.Palette[0] = Colours[0] * UCHAR_MAX;
-		Image->Pal.Palette[1] = Colours[1] * UCHAR_MAX;
-		Image->Pal.Palette[2] = Colours[2] * UCHAR_MAX;
-		Image->Pal.Palette[3] = Colours[3] * UCHAR_MAX;
+		ilGetClear(BytePtr, IL_RGBA, IL_UNSIGNED_BYTE);
 	}
 	
 	return IL_TRUE;
-- 
2.43.0


From a7ad278bc8121a367fdd50d3a46d3b8c186dfdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 038/185] fix: closing an image leaked its mipmaps when it had
 faces, leaked parts of it, and recursed along chains

---
 DevIL/src-IL/src/il_stack.cpp | 39 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 98ac1ca..633e93a 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -202,6 +202,8 @@ ILboolean ILAPIENTRY ilIsImage(ILuint Image)
 //! Closes Image and frees all memory associated with it.
 ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 {
+	ILimage	*Sub;
+
 	if (Image == NULL)
 		return;
 
@@ -210,43 +212,48 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 		Image->Data = NULL;
 	}
 
-	if (Image->Pal.Palette != NULL && Image->Pal.PalSize > 0 && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette != NULL) {
 		ifree(Image->Pal.Palette);
 		Image->Pal.Palette = NULL;
 	}
 
-	if (Image->Next != NULL) {
-		ilCloseImage(Image->Next);
-		Image->Next = NULL;
+	// The chains can be long, so do not recurse along them.
+	while ((Sub = Image->Next) != NULL) {
+		Image->Next = Sub->Next;
+		Sub->Next = NULL;
+		ilCloseImage(Sub);
 	}
 
-	if (Image->Faces != NULL) {
-		ilCloseImage(Image->Faces);
-		Image->Mipmaps = NULL;
+	while ((Sub = Image->Faces) != NULL) {
+		Image->Faces = Sub->Faces;
+		Sub->Faces = NULL;
+		ilCloseImage(Sub);
 	}
 
-	if (Image->Mipmaps != NULL) {
-		ilCloseImage(Image->Mipmaps);
-		Image->Mipmaps = NULL;
+	while ((Sub = Image->Mipmaps) != NULL) {
+		Image->Mipmaps = Sub->Mipmaps;
+		Sub->Mipmaps = NULL;
+		ilCloseImage(Sub);
 	}
 
-	if (Image->Layers != NULL) {
-		ilCloseImage(Image->Layers);
-		Image->Layers = NULL;
+	while ((Sub = Image->Layers) != NULL) {
+		Image->Layers = Sub->Layers;
+		Sub->Layers = NULL;
+		ilCloseImage(Sub);
 	}
 
-	if (Image->AnimList != NULL && Image->AnimSize != 0) {
+	if (Image->AnimList != NULL) {
 		ifree(Image->AnimList);
 		Image->AnimList = NULL;
 	}
 
-	if (Image->Profile != NULL && Image->ProfileSize != 0) {
+	if (Image->Profile != NULL) {
 		ifree(Image->Profile);
 		Image->Profile = NULL;
 		Image->ProfileSize = 0;
 	}
 
-	if (Image->DxtcData != NULL && Image->DxtcFormat != IL_DXT_NO_COMP) {
+	if (Image->DxtcData != NULL) {
 		ifree(Image->DxtcData);
 		Image->DxtcData = NULL;
 		Image->DxtcFormat = IL_DXT_NO_COMP;
-- 
2.43.0


From 1b67a1b7e73869b1f13d9d73bd9f7db82fc2ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 039/185] fix: binding a high image name could lose the whole
 image stack when memory is short

---
 DevIL/src-IL/src/il_stack.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 633e93a..74d7c02 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -16,6 +16,7 @@
 
 #include "il_internal.h"
 #include "il_stack.h"
+#include <limits.h>
 
 ILuint CurName = 0;
 
@@ -31,7 +32,7 @@ typedef struct iFree
 } iFree;
 
 
-static ILboolean iEnlargeStack();
+static ILboolean iEnlargeStack(ILuint MinSize = 0);
 
 static ILuint		StackSize = 0;
 static ILuint		LastUsed = 0;
@@ -98,14 +99,17 @@ void ILAPIENTRY ilBindImage(ILuint Image)
 	}
 
 	// If the user requests a high image name.
-	while (Image >= StackSize) {
-		if (!iEnlargeStack()) {
+	if (Image >= StackSize) {
+		if (Image == UINT_MAX || !iEnlargeStack(Image + 1)) {
+			ilSetError(IL_OUT_OF_MEMORY);
 			return;
 		}
 	}
 
 	if (ImageStack[Image] == NULL) {
 		ImageStack[Image] = ilNewImage(1, 1, 1, 1, 1);
+		if (ImageStack[Image] == NULL)
+			return;
 		if (Image >= LastUsed) // >= ?
 			LastUsed = Image + 1;
 	}
@@ -585,8 +589,11 @@ void ilShutDownInternal()
 }
 
 // Internal function to enlarge the image stack by I_STACK_INCREMENT members.
-ILboolean iEnlargeStack()
+//	(or to MinSize members if that is more).
+static ILboolean iEnlargeStack(ILuint MinSize)
 {
+	ILimage	**NewStack;
+
 	// 02-05-2001:  Moved from ilGenImages().
 	// Puts the cleanup function on the exit handler once.
 	if (!OnExit) {
@@ -599,10 +606,18 @@ ILboolean iEnlargeStack()
 		OnExit = IL_TRUE;
 	}
 
-	if (!(ImageStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
+	if (MinSize < StackSize + I_STACK_INCREMENT)
+		MinSize = StackSize + I_STACK_INCREMENT;
+	if (MinSize > UINT_MAX / sizeof(ILimage*)) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
+	NewStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), MinSize * sizeof(ILimage*));
+	if (NewStack == NULL) {
 		return IL_FALSE;
 	}
-	StackSize += I_STACK_INCREMENT;
+	ImageStack = NewStack;
+	StackSize = MinSize;
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 12bde7fe190a894783d2094341656e162b9ac4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 040/185] fix: ilGenImages handed out names in use again and
 undefined names when memory is short

---
 DevIL/src-IL/src/il_stack.cpp | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 74d7c02..1bc229f 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -57,24 +57,39 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 	}
 
 	// No images have been generated yet, so create the image stack.
+	for (Index = 0; Index < Num; Index++)
+		Images[Index] = 0;  // These are left if there is not enough memory.
+	Index = 0;
+
 	if (ImageStack == NULL)
 		if (!iEnlargeStack())
 			return;
 
 	do {
+		// A deleted name is in use again if it has been bound in the meantime.
+		while (FreeNames != NULL && ImageStack[FreeNames->Name] != NULL) {
+			TempFree = (iFree*)FreeNames->Next;
+			ifree(FreeNames);
+			FreeNames = TempFree;
+		}
+
 		if (FreeNames != NULL) {  // If any have been deleted, then reuse their image names.
-                        TempFree = (iFree*)FreeNames->Next;
-                        Images[Index] = FreeNames->Name;
-                        ImageStack[FreeNames->Name] = ilNewImage(1, 1, 1, 1, 1);
-                        ifree(FreeNames);
-                        FreeNames = TempFree;
+			ImageStack[FreeNames->Name] = ilNewImage(1, 1, 1, 1, 1);
+			if (ImageStack[FreeNames->Name] == NULL)
+				return;
+			TempFree = (iFree*)FreeNames->Next;
+			Images[Index] = FreeNames->Name;
+			ifree(FreeNames);
+			FreeNames = TempFree;
 		} else {
-                        if (LastUsed >= StackSize)
+			if (LastUsed >= StackSize)
 				if (!iEnlargeStack())
 					return;
-			Images[Index] = LastUsed;
 			// Must be all 1's instead of 0's, because some functions would divide by 0.
 			ImageStack[LastUsed] = ilNewImage(1, 1, 1, 1, 1);
+			if (ImageStack[LastUsed] == NULL)
+				return;
+			Images[Index] = LastUsed;
 			LastUsed++;
 		}
 	} while (++Index < Num);
@@ -84,7 +99,7 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 
 ILuint ILAPIENTRY ilGenImage()
 {
-    ILuint i;
+    ILuint i = 0;
     ilGenImages(1,&i);
     return i;
 }
@@ -100,8 +115,7 @@ void ILAPIENTRY ilBindImage(ILuint Image)
 
 	// If the user requests a high image name.
 	if (Image >= StackSize) {
-		if (Image == UINT_MAX || !iEnlargeStack(Image + 1)) {
-			ilSetError(IL_OUT_OF_MEMORY);
+		if (!iEnlargeStack(Image == UINT_MAX ? Image : Image + 1)) {
 			return;
 		}
 	}
@@ -133,7 +147,7 @@ void ILAPIENTRY ilDeleteImages(ILsizei Num, const ILuint *Images)
 		//ilSetError(IL_INVALID_VALUE);
 		return;
 	}
-	if (StackSize == 0)
+	if (StackSize == 0 || Images == NULL)
 		return;
 
 	do {
@@ -164,7 +178,7 @@ void ILAPIENTRY ilDeleteImages(ILsizei Num, const ILuint *Images)
 			// Add to head of list - works for empty and non-empty lists
 			Temp = (iFree*)ialloc(sizeof(iFree));
 			if (!Temp) {
-				return;
+				continue;  // The name just is not used again then.
 			}
 			Temp->Name = Images[Index];
 			Temp->Next = FreeNames;
-- 
2.43.0


From ecbd4ffbe13204e6a6655439a35cbbf84ece259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 041/185] fix: created mipmaps and layers could not be
 selected, failing to create sub-images left dangling ones

---
 DevIL/src-IL/src/il_register.cpp | 51 +++++++++++++++++---------------
 DevIL/src-IL/src/il_stack.cpp    | 19 ++++++++++--
 2 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 274674b..d10927e 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -267,7 +267,12 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 
 ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
@@ -286,12 +291,8 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 		Next->Faces = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Faces == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Faces;
-			while (Prev) {
-				Next = Prev->Faces;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Faces);
+			iCurImage->Faces = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Faces;
@@ -304,7 +305,12 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
@@ -320,18 +326,14 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 	Num--;
 
 	while (Num) {
-		Next->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Next == NULL) {
+		Next->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
+		if (Next->Mipmaps == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Mipmaps;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = NULL;
 			return IL_FALSE;
 		}
-		Next = Next->Next;
+		Next = Next->Mipmaps;
 		Num--;
 	}
 
@@ -341,7 +343,12 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
@@ -360,12 +367,8 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Next;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 1bc229f..c94016d 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -526,10 +526,23 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 	}
 
 	for (Count = 1; Count < Num; Count++) {
-		SubImage->Next = ilNewImage(1, 1, 1, 1, 1);
-		SubImage = SubImage->Next;
-		if (SubImage == NULL)
+		ILimage *NewImage = ilNewImage(1, 1, 1, 1, 1);
+		if (NewImage == NULL)
 			return Count;
+		// Each kind has its own chain, see the ilActive* functions.
+		switch (Type)
+		{
+			case IL_SUB_NEXT:
+				SubImage->Next = NewImage;
+				break;
+			case IL_SUB_MIPMAP:
+				SubImage->Mipmaps = NewImage;
+				break;
+			case IL_SUB_LAYER:
+				SubImage->Layers = NewImage;
+				break;
+		}
+		SubImage = NewImage;
 	}
 
 	return Count;
-- 
2.43.0


From 34c86764c036448a65f645235805704a5de045b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 042/185] fix: the first registered extension could be
 registered again, and registering crashed when memory is short

---
 DevIL/src-IL/src/il_register.cpp | 48 ++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index d10927e..c5ee493 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -26,20 +26,30 @@ iFormatS *SaveProcs = NULL;
 ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 	iFormatL *TempNode, *NewNode;
 
+	if (Ext == NULL || Load == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	TempNode = LoadProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	while (TempNode != NULL) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		if (TempNode->Next == NULL)
+			break;
+		TempNode = TempNode->Next;
 	}
 
 	NewNode = (iFormatL*)ialloc(sizeof(iFormatL));
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 
 	if (LoadProcs == NULL) {
 		LoadProcs = NewNode;
@@ -48,7 +58,6 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Load = Load;
 	NewNode->Next = NULL;
 
@@ -60,20 +69,30 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 {
 	iFormatS *TempNode, *NewNode;
 
+	if (Ext == NULL || Save == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	TempNode = SaveProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	while (TempNode != NULL) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		if (TempNode->Next == NULL)
+			break;
+		TempNode = TempNode->Next;
 	}
 
-	NewNode = (iFormatS*)ialloc(sizeof(iFormatL));
+	NewNode = (iFormatS*)ialloc(sizeof(iFormatS));
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 
 	if (SaveProcs == NULL) {
 		SaveProcs = NewNode;
@@ -82,7 +101,6 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Save = Save;
 	NewNode->Next = NULL;
 
-- 
2.43.0


From 1a7f7992d46b6e1d6b326621b1afeb0e38586ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 043/185] fix: ilRegisterFormat and ilRegisterType could make
 the image disagree with its data

---
 DevIL/src-IL/src/il_register.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index c5ee493..18ed0bd 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -254,6 +254,10 @@ void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 	{
 		case IL_ORIGIN_LOWER_LEFT:
 		case IL_ORIGIN_UPPER_LEFT:
+			if (iCurImage == NULL) {
+				ilSetError(IL_ILLEGAL_OPERATION);
+				return;
+			}
 			iCurImage->Origin = Origin;
 			break;
 		default:
@@ -273,7 +277,16 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 		case IL_BGR:
 		case IL_BGRA:
 		case IL_LUMINANCE:
-                case IL_LUMINANCE_ALPHA:
+		case IL_LUMINANCE_ALPHA:
+			if (iCurImage == NULL) {
+				ilSetError(IL_ILLEGAL_OPERATION);
+				return;
+			}
+			// The data of the image stays the same, so it has to fit it.
+			if (ilGetBppFormat(Format) != iCurImage->Bpp) {
+				ilSetError(IL_INVALID_PARAM);
+				return;
+			}
 			iCurImage->Format = Format;
 			break;
 		default:
@@ -409,6 +422,15 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 		case IL_UNSIGNED_INT:
 		case IL_FLOAT:
 		case IL_DOUBLE:
+			if (iCurImage == NULL) {
+				ilSetError(IL_ILLEGAL_OPERATION);
+				return;
+			}
+			// The data of the image stays the same, so it has to fit it.
+			if (ilGetBpcType(Type) != iCurImage->Bpc) {
+				ilSetError(IL_INVALID_PARAM);
+				return;
+			}
 			iCurImage->Type = Type;
 			break;
 		default:
-- 
2.43.0


From 35a28b7f32f34b0cdfc5c742995f3893ffb7c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 044/185] fix: ilRegisterPal leaked the old palette and
 accepted palettes that are none

---
 DevIL/src-IL/src/il_register.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 18ed0bd..eb58726 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -443,23 +443,27 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
-	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILubyte	*Palette;
 
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.PalType = Type;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Size);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return;
-
-	if (Pal != NULL) {
-		memcpy(iCurImage->Pal.Palette, Pal, Size);
 	}
-	else {
+	if (Pal == NULL || Size == 0 || ilGetBppPal(Type) == 0 || Size % ilGetBppPal(Type) != 0) {
 		ilSetError(IL_INVALID_PARAM);
+		return;
 	}
-	
+
+	Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL)
+		return;
+	memcpy(Palette, Pal, Size);
+
+	ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = Type;
+
 	return;
 }
 
-- 
2.43.0


From fd74883362e2c474fa4f900531b333fbe1576ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 045/185] fix: ilBlit and ilOverlayImage wrote outside images,
 mixed up wide types and alpha, and lost the binding on failure

---
 DevIL/src-IL/include/il_stack.h |   3 +
 DevIL/src-IL/src/il_devil.cpp   | 282 +++++++++++++++++---------------
 DevIL/src-IL/src/il_stack.cpp   |   9 +
 3 files changed, 163 insertions(+), 131 deletions(-)

diff --git a/DevIL/src-IL/include/il_stack.h b/DevIL/src-IL/include/il_stack.h
index 4109ac8..ac29fd9 100644
--- a/DevIL/src-IL/include/il_stack.h
+++ b/DevIL/src-IL/include/il_stack.h
@@ -20,4 +20,7 @@
 // the currently-bound image
 extern ILuint CurName;
 
+// the (base) image with this name - NULL if there is none
+ILimage *iGetNamedImage(ILuint Name);
+
 #endif//IMAGESTACK_H
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 58b74b4..c93e253 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -12,6 +12,8 @@
 
 
 #include "il_internal.h"
+#include "il_stack.h"
+#include "il_manip.h"
 #include <string.h>
 #include <limits.h>
 
@@ -732,165 +734,183 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 //! Overlays the image found in Src on top of the current bound image at the coords specified.
 ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, ILint ZCoord)
 {
-	ILuint	Width, Height, Depth;
-	ILuint	Dest;
-	
-	Dest = ilGetCurName();
-	ilBindImage(Source);
-	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
-	ilBindImage(Dest);
+	ILimage *Src = iGetNamedImage(Source);
+
+	if (Src == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Src->Width, Src->Height, Src->Depth);
+}
+
+
+// Reads one channel of a pixel, 0.0 - 1.0 for the integer types.
+static ILdouble iGetChannel(const ILubyte *Data, ILenum Type, ILuint Index)
+{
+	ILuint	Bits;
+	ILfloat	Float;
+
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			return Data[Index] / (ILdouble)UCHAR_MAX;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			return ((ILushort*)Data)[Index] / (ILdouble)USHRT_MAX;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			return ((ILuint*)Data)[Index] / (ILdouble)UINT_MAX;
+		case IL_FLOAT:
+			return ((ILfloat*)Data)[Index];
+		case IL_DOUBLE:
+			return ((ILdouble*)Data)[Index];
+		case IL_HALF:
+			Bits = ilHalfToFloat(((ILushort*)Data)[Index]);
+			memcpy(&Float, &Bits, sizeof(Float));
+			return Float;
+	}
+	return 0.0;
+}
+
+
+// Writes one channel of a pixel, see iGetChannel.
+static void iPutChannel(ILubyte *Data, ILenum Type, ILuint Index, ILdouble Value)
+{
+	ILuint	Bits;
+	ILfloat	Float = (ILfloat)Value;
+
+	if (Type != IL_FLOAT && Type != IL_DOUBLE && Type != IL_HALF)
+		Value = Value < 0.0 ? 0.0 : (Value > 1.0 ? 1.0 : Value);
+
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			Data[Index] = (ILubyte)(Value * UCHAR_MAX + 0.5);
+			break;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			((ILushort*)Data)[Index] = (ILushort)(Value * USHRT_MAX + 0.5);
+			break;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			((ILuint*)Data)[Index] = (ILuint)(Value * UINT_MAX + 0.5);
+			break;
+		case IL_FLOAT:
+			((ILfloat*)Data)[Index] = Float;
+			break;
+		case IL_DOUBLE:
+			((ILdouble*)Data)[Index] = Value;
+			break;
+		case IL_HALF:
+			memcpy(&Bits, &Float, sizeof(Float));
+			((ILushort*)Data)[Index] = ilFloatToHalf(Bits);
+			break;
+	}
+}
+
 
-	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Width, Height, Depth);
+// Limits one dimension of a rectangle to both images.
+static ILboolean iClipBlit(ILint *Dest, ILuint *Src, ILuint *Size, ILuint DestSize, ILuint SrcSize)
+{
+	if (*Dest < 0) {
+		ILuint Skip = 0u - (ILuint)*Dest;
+		if (Skip >= *Size || *Src > UINT_MAX - Skip)
+			return IL_FALSE;
+		*Src += Skip;
+		*Size -= Skip;
+		*Dest = 0;
+	}
+	if (*Src >= SrcSize || (ILuint)*Dest >= DestSize)
+		return IL_FALSE;
+	*Size = IL_MIN(*Size, SrcSize - *Src);
+	*Size = IL_MIN(*Size, DestSize - (ILuint)*Dest);
+	return *Size > 0;
 }
 
+
 //@NEXT DestX,DestY,DestZ must be set to ILuint
 ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint DestZ, 
                                            ILuint SrcX,  ILuint SrcY,   ILuint SrcZ,
                                            ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint 		x, y, z, ConvBps, ConvSizePlane;
-	ILimage 	*Dest,*Src;
-	ILubyte 	*Converted;
-	ILuint		DestName = ilGetCurName();
-	ILuint		c;
-	ILuint		StartX, StartY, StartZ;
-	ILboolean	DestFlipped = IL_FALSE;
-	ILubyte 	*SrcTemp;
-	ILfloat		Back;
-
-	// Check if the desiination image really exists
-	if (DestName == 0 || iCurImage == NULL) {
+	ILuint 		x, y, z, c, Channels, PixSize, SrcPixSize;
+	ILuint		SrcRow, DestRow;
+	ILimage 	*Dest = iCurImage, *Src;
+	ILubyte 	*Converted, *SrcPix, *DestPix, *SrcData;
+	ILboolean	Blend;
+	ILdouble	Front;
+
+	// Check if the destination image really exists
+	if (ilGetCurName() == 0 || Dest == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	Dest = iCurImage;
-	
-	// set the destination image to upper left origin
-	if (Dest->Origin == IL_ORIGIN_LOWER_LEFT) {  // Dest
-		DestFlipped = IL_TRUE;
-		ilFlipImage();
-	}
-	//DestOrigin = Dest->Origin;
-	ilBindImage(Source);
-	
+
 	// Check if the source image really exists
-	if (iCurImage == NULL) {
+	Src = iGetNamedImage(Source);
+	if (Src == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
-	
-	Src = iCurImage;
-	
-	//@TODO test if coordinates are inside the images (hard limit for source)
-	
-	// set the source image to upper left origin
-	if (Src->Origin == IL_ORIGIN_LOWER_LEFT)
-	{
-		SrcTemp = iGetFlipped(iCurImage);
-		if (SrcTemp == NULL)
-		{
-			ilBindImage(DestName);
-			if (DestFlipped)
-				ilFlipImage();
+
+	// Indices only mean the same with the same palette.
+	if (Dest->Format == IL_COLOUR_INDEX) {
+		if (Src->Format != IL_COLOUR_INDEX || Src->Type != Dest->Type || Src->Pal.PalType != Dest->Pal.PalType ||
+			Src->Pal.PalSize != Dest->Pal.PalSize || Src->Pal.Palette == NULL || Dest->Pal.Palette == NULL ||
+			memcmp(Src->Pal.Palette, Dest->Pal.Palette, Src->Pal.PalSize) != 0) {
+			ilSetError(IL_INVALID_CONVERSION);
 			return IL_FALSE;
 		}
 	}
-	else
-	{
-		SrcTemp = iCurImage->Data;
+
+	// Limit the copy to the inside of both images
+	if (!iClipBlit(&DestX, &SrcX, &Width, Dest->Width, Src->Width) ||
+		!iClipBlit(&DestY, &SrcY, &Height, Dest->Height, Src->Height) ||
+		!iClipBlit(&DestZ, &SrcZ, &Depth, Dest->Depth, Src->Depth)) {
+		return IL_TRUE;  // Nothing to do.
 	}
-	
+
 	// convert source image to match the destination image type and format
-	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
+	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, &Src->Pal, Src->Data);
 	if (Converted == NULL)
 		return IL_FALSE;
-	
-	ConvBps 	  = Dest->Bpp * Src->Width;
-	ConvSizePlane = ConvBps   * Src->Height;
-	
-	//@NEXT in next version this would have to be removed since Dest* will be unsigned
-	StartX = DestX >= 0 ? 0 : -DestX;
-	StartY = DestY >= 0 ? 0 : -DestY;
-	StartZ = DestZ >= 0 ? 0 : -DestZ;
-	
-	// Limit the copy of data inside of the destination image
-	if (Width  + DestX > Dest->Width)  Width  = Dest->Width  - DestX;
-	if (Height + DestY > Dest->Height) Height = Dest->Height - DestY;
-	if (Depth  + DestZ > Dest->Depth)  Depth  = Dest->Depth  - DestZ;
-	
-	//@TODO: non funziona con rgba
-	if (Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA) {
-		const ILuint bpp_without_alpha = Dest->Bpp - 1;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					const ILuint  SrcIndex  = (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp;
-					const ILuint  DestIndex = (z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp;
-					const ILuint  AlphaIdx = SrcIndex + bpp_without_alpha;
-					ILfloat Front = 0;
-					
-					switch (Dest->Type)
-					{
-						case IL_BYTE:
-						case IL_UNSIGNED_BYTE:
-							Front = Converted[AlphaIdx]/((float)IL_MAX_UNSIGNED_BYTE);
-							break;
-						case IL_SHORT:
-						case IL_UNSIGNED_SHORT:
-							Front = ((ILshort*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_SHORT);
-							break;
-						case IL_INT:
-						case IL_UNSIGNED_INT:
-							Front = ((ILint*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_INT);
-							break;
-						case IL_FLOAT:
-							Front = ((ILfloat*)Converted)[AlphaIdx];
-							break;
-						case IL_DOUBLE:
-							Front = (ILfloat)(((ILdouble*)Converted)[AlphaIdx]);
-							break;
-					}
-					Back = 1.0f - Front;
-					// In case of Alpha channel, the data is blended. Keeps the original alpha.
-					if (ilIsEnabled(IL_BLIT_BLEND)) {
-						for (c = 0; c < bpp_without_alpha; c++)
-						{
-							Dest->Data[DestIndex + c] = 
-								(ILubyte)(Converted[SrcIndex + c] * Front
-											+ Dest->Data[DestIndex + c] * Back);
-						}
-					}
-					else {
-						for (c = 0; c < Dest->Bpp; c++)
-						{
-							Dest->Data[DestIndex + c] = (ILubyte)(Converted[SrcIndex + c]);
-						}
-					}
-				}
+
+	// In case of Alpha channel, the data is blended. Keeps the original alpha.
+	Blend = ilIsEnabled(IL_BLIT_BLEND) && Dest->Format != IL_ALPHA &&
+		(Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA);
+	Channels = Dest->Bpp;
+	if (Dest->Format == IL_RGBA || Dest->Format == IL_BGRA || Dest->Format == IL_LUMINANCE_ALPHA)
+		Channels--;
+	PixSize = Dest->Bpp * Dest->Bpc;
+	SrcPixSize = Src->Bpp * Src->Bpc;
+
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++) {
+			// The coordinates start at the upper left.
+			SrcRow = Src->Origin == IL_ORIGIN_LOWER_LEFT ? Src->Height - 1 - (SrcY + y) : SrcY + y;
+			DestRow = Dest->Origin == IL_ORIGIN_LOWER_LEFT ? Dest->Height - 1 - (DestY + y) : DestY + y;
+			SrcPix = Converted + (((SrcZ + z) * Src->Height + SrcRow) * Src->Width + SrcX) * PixSize;
+			SrcData = Src->Data + (SrcZ + z) * Src->SizeOfPlane + SrcRow * Src->Bps + SrcX * SrcPixSize;
+			DestPix = Dest->Data + (DestZ + z) * Dest->SizeOfPlane + DestRow * Dest->Bps + DestX * PixSize;
+			if (!Blend) {
+				memcpy(DestPix, SrcPix, Width * PixSize);
+				continue;
 			}
-		}
-	} else {
-		for( z = 0; z < Depth; z++ ) {
-			for( y = 0; y < Height; y++ ) {
-				for( x = 0; x < Width; x++ ) {
-					for( c = 0; c < Dest->Bpp; c++ ) {
-						Dest->Data[(z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp + c] =
-						 Converted[(z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp + c];
-					}
+			for (x = 0; x < Width; x++, SrcPix += PixSize, SrcData += SrcPixSize, DestPix += PixSize) {
+				Front = iGetChannel(SrcData, Src->Type, Src->Bpp - 1);
+				for (c = 0; c < Channels; c++) {
+					iPutChannel(DestPix, Dest->Type, c, iGetChannel(SrcPix, Dest->Type, c) * Front +
+						iGetChannel(DestPix, Dest->Type, c) * (1.0 - Front));
 				}
 			}
 		}
 	}
-	
-	if (SrcTemp != iCurImage->Data)
-		ifree(SrcTemp);
-	
-	ilBindImage(DestName);
-	if (DestFlipped)
-		ilFlipImage();
-	
+
 	ifree(Converted);
-	
+
 	return IL_TRUE;
 }
 
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index c94016d..e70e66b 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -318,6 +318,15 @@ ILAPI void ILAPIENTRY ilClosePal(ILpal *Palette)
 }
 
 
+// Returns the image with this name without binding (and thereby creating) it.
+ILimage *iGetNamedImage(ILuint Name)
+{
+	if (ImageStack == NULL || Name >= StackSize)
+		return NULL;
+	return ImageStack[Name];
+}
+
+
 ILimage *iGetBaseImage()
 {
 	return ImageStack[ilGetCurName()];
-- 
2.43.0


From 8edc737789095e41606089f184a2b39f6102b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 046/185] fix: copying images reported success on failure,
 copied images onto themselves wrongly, created missing sources and left the
 clone's name bound

---
 DevIL/src-IL/src/il_devil.cpp | 67 +++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c93e253..d33a4a8 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -998,10 +998,20 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		return IL_FALSE;
 	}
 	
-	if (Dest->Pal.Palette && Dest->Pal.PalSize && Dest->Pal.PalType != IL_PAL_NONE) {
+	if (Dest == Src)
+		return IL_TRUE;
+
+	if (Dest->Pal.Palette) {
 		ifree(Dest->Pal.Palette);
 		Dest->Pal.Palette = NULL;
 	}
+	Dest->Pal.PalSize = 0;
+	Dest->Pal.PalType = IL_PAL_NONE;
+	if (Dest->AnimList) {
+		ifree(Dest->AnimList);
+		Dest->AnimList = NULL;
+	}
+	Dest->AnimSize = 0;
 	if (Dest->Faces) {
 		ilCloseImage(Dest->Faces);
 		Dest->Faces = NULL;
@@ -1083,19 +1093,33 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 {
 	ILuint DestName = ilGetCurName();
-	ILimage *DestImage = iCurImage, *SrcImage;
+	ILimage *DestImage = iCurImage, *SrcImage, *Copy, Old;
 	
 	if (iCurImage == NULL || DestName == 0) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 	
-	ilBindImage(Src);
-	SrcImage = iCurImage;
-	ilBindImage(DestName);
-	ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data);
-	ilCopyImageAttr(DestImage, SrcImage);
-	
+	SrcImage = iGetNamedImage(Src);
+	if (SrcImage == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	if (SrcImage == DestImage)
+		return IL_TRUE;
+
+	// The source can be the parent of the current image, so complete the copy before
+	//  anything is changed.
+	Copy = ilCopyImage_(SrcImage);
+	if (Copy == NULL)
+		return IL_FALSE;
+
+	// These are what it is that ilCloseImage gets rid of.
+	Old = *DestImage;
+	*DestImage = *Copy;
+	*Copy = Old;
+	ilCloseImage(Copy);
+
 	return IL_TRUE;
 }
 
@@ -1115,8 +1139,10 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 		return NULL;
 	}
 	
-	if (ilCopyImageAttr(Dest, Src) == IL_FALSE)
+	if (ilCopyImageAttr(Dest, Src) == IL_FALSE) {
+		ilCloseImage(Dest);
 		return NULL;
+	}
 	
 	memcpy(Dest->Data, Src->Data, Src->SizeOfData);
 	
@@ -1127,24 +1153,29 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 ILuint ILAPIENTRY ilCloneCurImage()
 {
 	ILuint Id;
-	ILimage *CurImage;
+	ILimage *Copy, *NewImage, Old;
 	
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return 0;
 	}
 	
-	ilGenImages(1, &Id);
-	if (Id == 0)
+	Copy = ilCopyImage_(iCurImage);
+	if (Copy == NULL)
 		return 0;
 	
-	CurImage = iCurImage;
-	
-	ilBindImage(Id);
-	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
-	ilCopyImageAttr(iCurImage, CurImage);
+	Id = ilGenImage();
+	NewImage = Id != 0 ? iGetNamedImage(Id) : NULL;
+	if (NewImage == NULL) {
+		ilCloseImage(Copy);
+		return 0;
+	}
 	
-	iCurImage = CurImage;
+	// The new name gets the copy, what it had goes.
+	Old = *NewImage;
+	*NewImage = *Copy;
+	*Copy = Old;
+	ilCloseImage(Copy);
 	
 	return Id;
 }
-- 
2.43.0


From a07cc6193b0ae2513bb0c9f75623c207744386d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 047/185] fix: ilResizeImage freed the image data before it had
 new one

---
 DevIL/src-IL/src/il_devil.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index d33a4a8..3ccb8e8 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1184,14 +1184,31 @@ ILuint ILAPIENTRY ilCloneCurImage()
 // Like ilTexImage but doesn't destroy the palette.
 ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
 {
+	ILubyte *Data;
+
 	if (Image == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 	
+	if (Width == 0 || Height == 0 || Depth == 0 || Bpp == 0 || Bpc == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	if ((ILdouble)Width * Height * Depth * Bpp * Bpc > (ILdouble)INT_MAX) {
+		ilSetError(IL_BAD_DIMENSIONS);
+		return IL_FALSE;
+	}
+
+	// The old contents are only released when the new ones exist.
+	Data = (ILubyte*)icalloc(1, Width * Height * Depth * Bpp * Bpc);
+	if (Data == NULL)
+		return IL_FALSE;
+
 	if (Image->Data != NULL)
 		ifree(Image->Data);
 	
+	Image->Data = Data;
 	Image->Depth = Depth;
 	Image->Width = Width;
 	Image->Height = Height;
@@ -1201,10 +1218,5 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 	Image->SizeOfPlane = Image->Bps * Height;
 	Image->SizeOfData = Image->SizeOfPlane * Depth;
 	
-	Image->Data = (ILubyte*)ialloc(Image->SizeOfData);
-	if (Image->Data == NULL) {
-		return IL_FALSE;
-	}
-	
 	return IL_TRUE;
 }
-- 
2.43.0


From 2f6c1a496e72419deaca0d252ae61428a6f0cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 048/185] fix: ilCopyPixels and ilSetPixels reached outside the
 image and the buffer, used wrong strides and stored flipped data

---
 DevIL/src-IL/src/il_manip.cpp | 452 ++++++++--------------------------
 1 file changed, 98 insertions(+), 354 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79acc99..3200d1c 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -12,6 +12,7 @@
 
 
 #include "il_internal.h"
+#include <limits.h>
 
 ILfloat /*ILAPIENTRY*/ ilFloatToHalfOverflow() {
 	ILfloat f = 1e10;
@@ -376,424 +377,167 @@ ILboolean ILAPIENTRY iMirror() {
 }
 
 
-// Should we add type to the parameter list?
-// Copies a 1d block of pixels to the buffer pointed to by Data.
-ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
+// The row of the data of the image that is row y for the caller.
+static ILuint iPixelRow(const ILimage *Image, ILuint y)
 {
-	ILuint	x, c, NewBps, NewOff, PixBpp;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (iCurImage->Width < XOff + Width) {
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
+		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != Image->Origin)
+			return Image->Height - 1 - y;
 	}
-	else {
-		NewBps = Width * PixBpp;
-	}
-	NewOff = XOff * PixBpp;
-
-	for (x = 0; x < NewBps; x += PixBpp) {
-		for (c = 0; c < PixBpp; c++) {
-			Temp[x + c] = TempData[(x + NewOff) + c];
-		}
-	}
-
-	if (TempData != iCurImage->Data)
-		ifree(TempData);
-
-	return IL_TRUE;
+	return y;
 }
 
 
-// Copies a 2d block of pixels to the buffer pointed to by Data.
-ILboolean ilCopyPixels2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height, void *Data)
+// Copies a block of pixels, all of them inside the image, between it and a buffer of just this size.
+static void iMovePixels(ILimage *Image, ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth, ILubyte *Data, ILboolean Write)
 {
-	ILuint	x, y, c, NewBps, DataBps, NewXOff, NewHeight, PixBpp;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
+	const ILuint	PixBpp = Image->Bpp * Image->Bpc;
+	const ILuint	RowSize = Width * PixBpp;
+	ILuint			y, z;
+	ILubyte			*Row;
 
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++, Data += RowSize) {
+			Row = Image->Data + (ZOff + z) * Image->SizeOfPlane + iPixelRow(Image, YOff + y) * Image->Bps + XOff * PixBpp;
+			if (Write)
+				memcpy(Row, Data, RowSize);
+			else
+				memcpy(Data, Row, RowSize);
 		}
 	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (iCurImage->Width < XOff + Width)
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
-	else
-		NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
-
-	DataBps = Width * PixBpp;
-	NewXOff = XOff * PixBpp;
-
-	for (y = 0; y < NewHeight; y++) {
-		for (x = 0; x < NewBps; x += PixBpp) {
-			for (c = 0; c < PixBpp; c++) {
-				Temp[y * DataBps + x + c] = 
-					TempData[(y + YOff) * iCurImage->Bps + x + NewXOff + c];
-			}
-		}
-	}
-
-	if (TempData != iCurImage->Data)
-		ifree(TempData);
-
-	return IL_TRUE;
+	return;
 }
 
 
-// Copies a 3d block of pixels to the buffer pointed to by Data.
-ILboolean ilCopyPixels3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth, void *Data)
+// Limits one dimension of a block to the image, Skip is what the block loses at its start.
+static ILboolean iClipPixels(ILint64 *Off, ILuint *Size, ILuint *Skip, ILuint ImageSize)
 {
-	ILuint	x, y, z, c, NewBps, DataBps, NewSizePlane, NewH, NewD, NewXOff, PixBpp;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (iCurImage->Width < XOff + Width)
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
-	else
-		NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
-
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
-
-	DataBps = Width * PixBpp;
-	NewSizePlane = NewBps * NewH;
-
-	NewXOff = XOff * PixBpp;
-
-	for (z = 0; z < NewD; z++) {
-		for (y = 0; y < NewH; y++) {
-			for (x = 0; x < NewBps; x += PixBpp) {
-				for (c = 0; c < PixBpp; c++) {
-					Temp[z * NewSizePlane + y * DataBps + x + c] = 
-						TempData[(z + ZOff) * iCurImage->SizeOfPlane + (y + YOff) * iCurImage->Bps + x + NewXOff + c];
-						//TempData[(z + ZOff) * iCurImage->SizeOfPlane + (y + YOff) * iCurImage->Bps + (x + XOff) * iCurImage->Bpp + c];
-				}
-			}
-		}
-	}
-
-	if (TempData != iCurImage->Data)
-		ifree(TempData);
-
+	ILint64	End = *Off + *Size;
+
+	*Skip = 0;
+	if (End > (ILint64)ImageSize)
+		End = ImageSize;
+	if (*Off < 0) {
+		if (-*Off >= (ILint64)*Size)
+			return IL_FALSE;
+		*Skip = (ILuint)-*Off;
+		*Off = 0;
+	}
+	if (*Off >= End)
+		return IL_FALSE;
+	*Size = (ILuint)(End - *Off);
 	return IL_TRUE;
 }
 
 
 ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth, ILenum Format, ILenum Type, void *Data)
 {
-	void	*Converted = NULL;
-	ILubyte	*TempBuff = NULL;
-	ILuint	SrcSize, DestSize;
+	ILubyte	*Converted = NULL, *TempBuff = NULL;
+	ILuint	SrcSize, DestSize, DestBpp, y, z;
+	ILuint	W = Width, H = Height, D = Depth, SkipX, SkipY, SkipZ;
+	ILint64	X = XOff, Y = YOff, Z = ZOff;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return 0;
 	}
-	DestSize = Width * Height * Depth * ilGetBppFormat(Format) * ilGetBpcType(Type);
-	if (DestSize == 0) {
-		return DestSize;
+	DestBpp = ilGetBppFormat(Format) * ilGetBpcType(Type);
+	if (DestBpp == 0 || Width == 0 || Height == 0 || Depth == 0) {
+		return 0;
 	}
-	if (Data == NULL || Format == IL_COLOUR_INDEX) {
+	if (Data == NULL || Format == IL_COLOUR_INDEX || (ILdouble)Width * Height * Depth * DestBpp > (ILdouble)UINT_MAX) {
 		ilSetError(IL_INVALID_PARAM);
 		return 0;
 	}
-	SrcSize = Width * Height * Depth * iCurImage->Bpp * iCurImage->Bpc;
+	DestSize = Width * Height * Depth * DestBpp;
 
-	if (Format == iCurImage->Format && Type == iCurImage->Type) {
-		TempBuff = (ILubyte*)Data;
-	}
-	else {
-		TempBuff = (ILubyte*)ialloc(SrcSize);
-		if (TempBuff == NULL) {
-			return 0;
-		}
+	if (!iClipPixels(&X, &W, &SkipX, iCurImage->Width) || !iClipPixels(&Y, &H, &SkipY, iCurImage->Height) ||
+		!iClipPixels(&Z, &D, &SkipZ, iCurImage->Depth)) {
+		return DestSize;  // Nothing of this is inside of the image.
 	}
 
-	if (YOff + Height <= 1) {
-		if (!ilCopyPixels1D(XOff, Width, TempBuff)) {
-			goto failed;
-		}
-	}
-	else if (ZOff + Depth <= 1) {
-		if (!ilCopyPixels2D(XOff, YOff, Width, Height, TempBuff)) {
-			goto failed;
-		}
-	}
-	else {
-		if (!ilCopyPixels3D(XOff, YOff, ZOff, Width, Height, Depth, TempBuff)) {
-			goto failed;
-		}
+	SrcSize = W * H * D * iCurImage->Bpp * iCurImage->Bpc;
+	TempBuff = (ILubyte*)ialloc(SrcSize);
+	if (TempBuff == NULL) {
+		return 0;
 	}
+	iMovePixels(iCurImage, (ILuint)X, (ILuint)Y, (ILuint)Z, W, H, D, TempBuff, IL_FALSE);
 
 	if (Format == iCurImage->Format && Type == iCurImage->Type) {
-		return DestSize;
-	}
-
-	Converted = ilConvertBuffer(SrcSize, iCurImage->Format, Format, iCurImage->Type, Type, &iCurImage->Pal, TempBuff);
-	if (Converted == NULL)
-		goto failed;
-
-	memcpy(Data, Converted, DestSize);
-
-	ifree(Converted);
-	if (TempBuff != Data)
-		ifree(TempBuff);
-
-	return DestSize;
-
-failed:
-	if (TempBuff != Data)
-		ifree(TempBuff);
-	ifree(Converted);
-	return 0;
-}
-
-
-ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
-{
-	ILuint	c, SkipX = 0, PixBpp;
-	ILint	x, NewWidth;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-
-	if (iCurImage->Width < XOff + Width) {
-		NewWidth = iCurImage->Width - XOff;
+		Converted = TempBuff;
 	}
 	else {
-		NewWidth = Width;
-	}
-
-	NewWidth -= SkipX;
-
-	for (x = 0; x < NewWidth; x++) {
-		for (c = 0; c < PixBpp; c++) {
-			TempData[(x + XOff) * PixBpp + c] = Temp[(x + SkipX) * PixBpp + c];
-		}
-	}
-
-	if (TempData != iCurImage->Data) {
-		ifree(iCurImage->Data);
-		iCurImage->Data = TempData;
-	}
-
-	return IL_TRUE;
-}
-
-
-ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, void *Data)
-{
-	ILuint	c, SkipX = 0, SkipY = 0, NewBps, PixBpp;
-	ILint	x, y, NewWidth, NewHeight;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-	if (YOff < 0) {
-		SkipY = abs(YOff);
-		YOff = 0;
-	}
-
-	if (iCurImage->Width < XOff + Width)
-		NewWidth = iCurImage->Width - XOff;
-	else
-		NewWidth = Width;
-	NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
-
-	NewWidth -= SkipX;
-	NewHeight -= SkipY;
-
-	for (y = 0; y < NewHeight; y++) {
-		for (x = 0; x < NewWidth; x++) {
-			for (c = 0; c < PixBpp; c++) {
-				TempData[(y + YOff) * iCurImage->Bps + (x + XOff) * PixBpp + c] =
-					Temp[(y + SkipY) * NewBps + (x + SkipX) * PixBpp + c];					
-			}
-		}
-	}
-
-	if (TempData != iCurImage->Data) {
-		ifree(iCurImage->Data);
-		iCurImage->Data = TempData;
-	}
-
-	return IL_TRUE;
-}
-
-
-ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint Height, ILuint Depth, void *Data)
-{
-	ILuint	SkipX = 0, SkipY = 0, SkipZ = 0, c, NewBps, NewSizePlane, PixBpp;
-	ILint	x, y, z, NewW, NewH, NewD;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-	if (YOff < 0) {
-		SkipY = abs(YOff);
-		YOff = 0;
-	}
-	if (ZOff < 0) {
-		SkipZ = abs(ZOff);
-		ZOff = 0;
+		Converted = (ILubyte*)ilConvertBuffer(SrcSize, iCurImage->Format, Format, iCurImage->Type, Type, &iCurImage->Pal, TempBuff);
+		ifree(TempBuff);
+		if (Converted == NULL)
+			return 0;
 	}
 
-	if (iCurImage->Width < XOff + Width)
-		NewW = iCurImage->Width - XOff;
-	else
-		NewW = Width;
-	NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
-
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
-	NewSizePlane = NewBps * Height;
-
-	NewW -= SkipX;
-	NewH -= SkipY;
-	NewD -= SkipZ;
-
-	for (z = 0; z < NewD; z++) {
-		for (y = 0; y < NewH; y++) {
-			for (x = 0; x < NewW; x++) {
-				for (c = 0; c < PixBpp; c++) {
-					TempData[(z + ZOff) * iCurImage->SizeOfPlane + (y + YOff) * iCurImage->Bps + (x + XOff) * PixBpp + c] =
-						Temp[(z + SkipZ) * NewSizePlane + (y + SkipY) * NewBps + (x + SkipX) * PixBpp + c];
-				}
-			}
+	for (z = 0; z < D; z++) {
+		for (y = 0; y < H; y++) {
+			memcpy((ILubyte*)Data + ((size_t)z * Height + y) * Width * DestBpp,
+				Converted + ((size_t)z * H + y) * W * DestBpp, W * DestBpp);
 		}
 	}
+	ifree(Converted);
 
-	if (TempData != iCurImage->Data) {
-		ifree(iCurImage->Data);
-		iCurImage->Data = TempData;
-	}
-
-	return IL_TRUE;
+	return DestSize;
 }
 
 
 void ILAPIENTRY ilSetPixels(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint Height, ILuint Depth, ILenum Format, ILenum Type, void *Data)
 {
-	void *Converted;
+	ILubyte	*Converted, *TempBuff;
+	ILuint	SrcBpp, y, z;
+	ILuint	W = Width, H = Height, D = Depth, SkipX, SkipY, SkipZ;
+	ILint64	X = XOff, Y = YOff, Z = ZOff;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return;
 	}
-	if (Data == NULL) {
+	SrcBpp = ilGetBppFormat(Format) * ilGetBpcType(Type);
+	if (Data == NULL || SrcBpp == 0) {
 		ilSetError(IL_INVALID_PARAM);
 		return;
 	}
-
-	if (Format == iCurImage->Format && Type == iCurImage->Type) {
-		Converted = (void*)Data;
-	}
-	else {
-		Converted = ilConvertBuffer(Width * Height * Depth * ilGetBppFormat(Format) * ilGetBpcType(Type), Format, iCurImage->Format, Type, iCurImage->Type, NULL, Data);
-		if (!Converted)
-			return;
+	if ((Format == IL_COLOUR_INDEX || iCurImage->Format == IL_COLOUR_INDEX) &&
+		(Format != iCurImage->Format || Type != iCurImage->Type)) {
+		ilSetError(IL_INVALID_CONVERSION);
+		return;
 	}
 
-	if (YOff + Height <= 1) {
-		ilSetPixels1D(XOff, Width, Converted);
+	if (!iClipPixels(&X, &W, &SkipX, iCurImage->Width) || !iClipPixels(&Y, &H, &SkipY, iCurImage->Height) ||
+		!iClipPixels(&Z, &D, &SkipZ, iCurImage->Depth)) {
+		return;  // Nothing of this is inside of the image.
 	}
-	else if (ZOff + Depth <= 1) {
-		ilSetPixels2D(XOff, YOff, Width, Height, Converted);
+
+	if ((ILdouble)W * H * D * SrcBpp > (ILdouble)UINT_MAX) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return;
 	}
-	else {
-		ilSetPixels3D(XOff, YOff, ZOff, Width, Height, Depth, Converted);
+	TempBuff = (ILubyte*)ialloc(W * H * D * SrcBpp);
+	if (TempBuff == NULL)
+		return;
+	for (z = 0; z < D; z++) {
+		for (y = 0; y < H; y++) {
+			memcpy(TempBuff + ((size_t)z * H + y) * W * SrcBpp,
+				(ILubyte*)Data + ((((size_t)z + SkipZ) * Height + y + SkipY) * Width + SkipX) * SrcBpp, W * SrcBpp);
+		}
 	}
 
 	if (Format == iCurImage->Format && Type == iCurImage->Type) {
-		return;
+		Converted = TempBuff;
+	}
+	else {
+		Converted = (ILubyte*)ilConvertBuffer(W * H * D * SrcBpp, Format, iCurImage->Format, Type, iCurImage->Type, NULL, TempBuff);
+		ifree(TempBuff);
+		if (Converted == NULL)
+			return;
 	}
 
-	if (Converted != Data)
-		ifree(Converted);
+	iMovePixels(iCurImage, (ILuint)X, (ILuint)Y, (ILuint)Z, W, H, D, Converted, IL_TRUE);
+	ifree(Converted);
 
 	return;
 }
-- 
2.43.0


From 17edae3ba86a198ef78b263102d831a2b28ead98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 049/185] fix: ilGetAlpha returned NaN as opaque alpha for the
 floating point types, nothing for half floats, and leaked

---
 DevIL/src-IL/src/il_manip.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 3200d1c..e67cf2c 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -627,7 +627,8 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		return NULL;
 	}
 
-	if (iCurImage->Type == Type) {
+	// Indices are never converted to another type without becoming colours.
+	if (iCurImage->Type == Type || iCurImage->Format == IL_COLOUR_INDEX) {
 		TempImage = iCurImage;
 	} else {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, Type);
@@ -649,7 +650,24 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		case IL_BGR:
 		case IL_LUMINANCE:
 		case IL_COLOUR_INDEX:  // @TODO: Make IL_COLOUR_INDEX separate.
-			memset(Alpha, 0xFF, Size / TempImage->Bpp * Bpc);
+			Size /= TempImage->Bpp;
+			switch (Type)
+			{
+				case IL_HALF:
+					for (i = 0; i < Size; i++)
+						((ILushort*)Alpha)[i] = 0x3C00;  // 1.0
+					break;
+				case IL_FLOAT:
+					for (i = 0; i < Size; i++)
+						((ILfloat*)Alpha)[i] = 1.0f;
+					break;
+				case IL_DOUBLE:
+					for (i = 0; i < Size; i++)
+						((ILdouble*)Alpha)[i] = 1.0;
+					break;
+				default:
+					memset(Alpha, 0xFF, Size * Bpc);
+			}
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return Alpha;
@@ -658,6 +676,8 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 	// If our format is alpha, just return a copy.
 	if (TempImage->Format == IL_ALPHA) {
 		memcpy(Alpha, TempImage->Data, TempImage->SizeOfData);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return Alpha;
 	}
 		
@@ -676,6 +696,7 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
+		case IL_HALF:
 			AlphaShort = (ILushort*)Alpha;
 			for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
 				AlphaShort[j] = ((ILushort*)TempImage->Data)[i];
-- 
2.43.0


From 1ab1dc11e77cf5ce9277cd29bb6a28672d3eefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 050/185] fix: ilSetAlpha set a wrong alpha in 32-bit images,
 none in half float ones and wrote past alpha-only ones

---
 DevIL/src-IL/src/il_manip.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index e67cf2c..ade5171 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -757,10 +757,14 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 			break;
 		case IL_ALPHA:
 			AlphaOff = 1;
+			break;
 		case IL_COLOUR_INDEX: //@TODO use palette with alpha
 			ret = ilConvertImage(IL_RGBA, Image->Type);
 			AlphaOff = 4;
 			break;
+		default:
+			ilSetError(IL_ILLEGAL_OPERATION);
+			return IL_FALSE;
 	}
 	if (ret == IL_FALSE) {
 		// Error has been set by ilConvertImage.
@@ -786,11 +790,18 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 		}
 		case IL_INT:
 		case IL_UNSIGNED_INT: {
-			const ILushort alpha = (ILushort)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
+			const ILuint alpha = (ILuint)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
 			for (i = AlphaOff-1; i < Size; i += AlphaOff)
 				((ILuint*)Image->Data)[i] = alpha;
 			break;
 		}
+		case IL_HALF: {
+			const ILfloat alphaf = (ILfloat)AlphaValue;
+			const ILushort alpha = ilFloatToHalf(*(ILuint*)&alphaf);
+			for (i = AlphaOff-1; i < Size; i += AlphaOff)
+				((ILushort*)Image->Data)[i] = alpha;
+			break;
+		}
 		case IL_FLOAT: {
 			const ILfloat alpha = (ILfloat)AlphaValue;
 			for (i = AlphaOff-1; i < Size; i += AlphaOff)
-- 
2.43.0


From 945a484c0a49caddd9bf69ede437c4a0851c5876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 051/185] fix: ilConvertBuffer overflows its buffer for opaque
 to alpha, mis-weights half and 32-bit luminance, leaves same-width types
 unconverted and 1.0 as 0

---
 DevIL/src-IL/src/il_convbuff.cpp | 369 +++++++++++++++++--------------
 1 file changed, 203 insertions(+), 166 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 3ed07a2..9fcb601 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -26,6 +26,46 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 
 ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat);
 
+// Converts 0..1 to 0..Max (values outside are clamped, not-a-number is 0).
+static ILuint iUnitToInt(ILdouble Value, ILuint Max)
+{
+	if (!(Value > 0))
+		return 0;
+	if (Value >= 1)
+		return Max;
+	return (ILuint)(Value * Max + 0.5);
+}
+
+// The rounded sum of the luminance weights can be larger than what was weighted.
+static ILuint iLumToUint(ILdouble Value)
+{
+	return Value >= UINT_MAX ? UINT_MAX : (ILuint)(Value + 0.5);
+}
+
+// Fills Buffer with opaque alpha values.
+static void iFillOpaque(void *Buffer, ILuint Num, ILenum Type)
+{
+	ILuint i;
+
+	switch (Type)
+	{
+		case IL_HALF:
+			for (i = 0; i < Num; i++)
+				((ILushort*)Buffer)[i] = 0x3C00;
+			break;
+		case IL_FLOAT:
+			for (i = 0; i < Num; i++)
+				((ILfloat*)Buffer)[i] = 1.0f;
+			break;
+		case IL_DOUBLE:
+			for (i = 0; i < Num; i++)
+				((ILdouble*)Buffer)[i] = 1.0;
+			break;
+		default:
+			memset(Buffer, 0xFF, Num * ilGetBpcType(Type));
+	}
+}
+
 #define CHECK_ALLOC() 	if (NewData == NULL) { \
 							if (Data != Buffer) \
 								ifree(Data); \
@@ -44,6 +84,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 	ILdouble	Resultd;
 	ILuint		NumPix;  // Really number of pixels * bpp.
 	ILuint		BpcDest;
+	ILushort	OpaqueShort;  // 1.0 for half floats
 	void		*Data = NULL;
 	ILimage		*PalImage = NULL, *TempImage = NULL;
 
@@ -52,27 +93,24 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		return NULL;
 	}
 
-	Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
-	if (Data == NULL)
-		return NULL;
-
 	BpcDest = ilGetBpcType(DestType);
+	if (BpcDest == 0 || ilGetBpcType(SrcType) == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return NULL;
+	}
 	NumPix = SizeOfData / ilGetBpcType(SrcType);
 
-	if (DestFormat == SrcFormat) {
-		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
-		if (NewData == NULL) {
-			return IL_FALSE;
+	// Colour-indexed images are special here
+	if (SrcFormat == IL_COLOUR_INDEX && (DestFormat != IL_COLOUR_INDEX || BpcDest != 1 || ilGetBpcType(SrcType) != 1)) {
+		if (DestFormat == IL_COLOUR_INDEX || ilGetBpcType(SrcType) != 1) {
+			ilSetError(IL_INVALID_CONVERSION);  // Indices have no other type.
+			return NULL;
+		}
+		if (SrcPal == NULL) {
+			ilSetError(IL_INVALID_PARAM);
+			return NULL;
 		}
-		memcpy(NewData, Data, NumPix * BpcDest);
-		if (Data != Buffer)
-			ifree(Data);
-
-		return NewData;
-	}
 
-	// Colour-indexed images are special here
-	if (SrcFormat == IL_COLOUR_INDEX) {
 		// We create a temporary palette image so that we can send it to iConvertPalette.
 		PalImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 		if (PalImage == NULL)
@@ -88,32 +126,63 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		PalImage->Type = IL_UNSIGNED_BYTE;
 		PalImage->Data = (ILubyte*)Buffer;
 		PalImage->Bpp = 1;
+		PalImage->Bpc = 1;
 		PalImage->SizeOfData = SizeOfData;
 
 		// Convert the paletted image to a different format.
 		TempImage = iConvertPalette(PalImage, DestFormat);
-		if (TempImage == NULL) {
-			// So that we do not delete the original palette or data.
-			PalImage->Pal.Palette = NULL;
-			PalImage->Data = NULL;
-			ilCloseImage(PalImage);
-			return NULL;
-		}
 
-		// Set TempImage->Data to NULL so that we can preserve it via NewData, or
-		//  else it would get wiped out by ilCloseImage.
-		NewData = TempImage->Data;
-		TempImage->Data = NULL;
 		// So that we do not delete the original palette or data.
 		PalImage->Pal.Palette = NULL;
 		PalImage->Data = NULL;
-
-		// Clean up here.
 		ilCloseImage(PalImage);
+		if (TempImage == NULL)
+			return NULL;
+
+		// Set TempImage->Data to NULL so that we can preserve it via NewData, or
+		//  else it would get wiped out by ilCloseImage.
+		Data = TempImage->Data;
+		Size = TempImage->SizeOfData;
+		TempImage->Data = NULL;
 		ilCloseImage(TempImage);
+
+		// The colours of a palette are bytes.
+		NewData = (ILubyte*)iSwitchTypes(Size, IL_UNSIGNED_BYTE, DestType, Data);
+		if (NewData != Data)
+			ifree(Data);
 		return NewData;
 	}
-	
+
+	// Half floats cannot be weighted as the integers that they are stored in.
+	if (DestType == IL_HALF && (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) &&
+		(SrcFormat == IL_RGB || SrcFormat == IL_RGBA || SrcFormat == IL_BGR || SrcFormat == IL_BGRA)) {
+		Data = ilConvertBuffer(SizeOfData, SrcFormat, DestFormat, SrcType, IL_FLOAT, SrcPal, Buffer);
+		if (Data == NULL)
+			return NULL;
+		NumPix = NumPix / ilGetBppFormat(SrcFormat) * ilGetBppFormat(DestFormat);
+		NewData = (ILubyte*)iSwitchTypes(NumPix * sizeof(ILfloat), IL_FLOAT, IL_HALF, Data);
+		ifree(Data);
+		return NewData;
+	}
+
+	Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
+	if (Data == NULL)
+		return NULL;
+
+	if (DestFormat == SrcFormat) {
+		if (Data != Buffer)
+			return Data;
+		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
+		if (NewData == NULL) {
+			return IL_FALSE;
+		}
+		memcpy(NewData, Data, NumPix * BpcDest);
+
+		return NewData;
+	}
+
+	OpaqueShort = DestType == IL_HALF ? 0x3C00 : USHRT_MAX;
+
 	switch (SrcFormat)
 	{
 		case IL_RGB:
@@ -187,7 +256,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_RGBA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 4 / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 4);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -207,7 +276,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								((ILushort*)(NewData))[j] = ((ILushort*)(Data))[i];
 								((ILushort*)(NewData))[j+1] = ((ILushort*)(Data))[i+1];
 								((ILushort*)(NewData))[j+2] = ((ILushort*)(Data))[i+2];
-								((ILushort*)(NewData))[j+3] = USHRT_MAX;
+								((ILushort*)(NewData))[j+3] = OpaqueShort;
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -239,7 +308,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_BGRA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 4 / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 4);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -259,7 +328,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								((ILushort*)(NewData))[j] = ((ILushort*)(Data))[i+2];
 								((ILushort*)(NewData))[j+1] = ((ILushort*)(Data))[i+1];
 								((ILushort*)(NewData))[j+2] = ((ILushort*)(Data))[i];
-								((ILushort*)(NewData))[j+3] = USHRT_MAX;
+								((ILushort*)(NewData))[j+3] = OpaqueShort;
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -291,7 +360,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest);
 					CHECK_ALLOC();
 					Size = NumPix / 3;
 					switch (DestType)
@@ -303,7 +372,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								NewData[i] = (ILubyte)Resultf;
+								NewData[i] = (ILubyte)(Resultf + 0.5f);
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
@@ -314,17 +383,17 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = (ILushort)(Resultf + 0.5f);
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -349,7 +418,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3 * 2);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 2);
 					CHECK_ALLOC();
 					Size = NumPix / 3;
 					switch (DestType)
@@ -361,7 +430,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								NewData[i*2] = (ILubyte)Resultf;
+								NewData[i*2] = (ILubyte)(Resultf + 0.5f);
 								NewData[i*2+1] = UCHAR_MAX;
 							}
 							break;
@@ -373,18 +442,18 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i*2] = (ILushort)Resultf;
-								((ILushort*)(NewData))[i*2+1] = USHRT_MAX;
+								((ILushort*)(NewData))[i*2] = (ILushort)(Resultf + 0.5f);
+								((ILushort*)(NewData))[i*2+1] = OpaqueShort;
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = iLumToUint(Resultd);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -412,9 +481,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					iFillOpaque(NewData, NumPix / 3, DestType);
 					break;
 
 				default:
@@ -501,7 +570,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_RGB:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 3 / 4);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest * 3);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -548,7 +617,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_BGR:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 3 / 4);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest * 3);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -595,7 +664,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest);
 					CHECK_ALLOC();
 					Size = NumPix / 4;
 					switch (DestType)
@@ -607,7 +676,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILubyte*)(Data))[i * 4 + c] * LumFactor[c];
 								}
-								NewData[i] = (ILubyte)Resultf;
+								NewData[i] = (ILubyte)(Resultf + 0.5f);
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
@@ -618,7 +687,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILushort*)(Data))[i * 4 + c] * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = (ILushort)(Resultf + 0.5f);
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -628,7 +697,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -653,7 +722,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4 * 2);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest * 2);
 					CHECK_ALLOC();
 					Size = NumPix / 4 * 2;
 					switch (DestType)
@@ -665,7 +734,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[c];
 								}
-								NewData[i] = (ILubyte)Resultf;
+								NewData[i] = (ILubyte)(Resultf + 0.5f);
 								NewData[i+1] = ((ILubyte*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -677,7 +746,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = (ILushort)(Resultf + 0.5f);
 								((ILushort*)(NewData))[i+1] = ((ILushort*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -688,7 +757,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -716,7 +785,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest);
 					CHECK_ALLOC();
 					Size = NumPix / 4;
 					switch (DestType)
@@ -832,7 +901,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_BGRA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 4 / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 4);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -852,7 +921,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								((ILushort*)(NewData))[j] = ((ILushort*)(Data))[i];
 								((ILushort*)(NewData))[j+1] = ((ILushort*)(Data))[i+1];
 								((ILushort*)(NewData))[j+2] = ((ILushort*)(Data))[i+2];
-								((ILushort*)(NewData))[j+3] = USHRT_MAX;
+								((ILushort*)(NewData))[j+3] = OpaqueShort;
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -884,7 +953,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_RGBA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 4 / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 4);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -904,7 +973,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								((ILushort*)(NewData))[j] = ((ILushort*)(Data))[i+2];
 								((ILushort*)(NewData))[j+1] = ((ILushort*)(Data))[i+1];
 								((ILushort*)(NewData))[j+2] = ((ILushort*)(Data))[i];
-								((ILushort*)(NewData))[j+3] = USHRT_MAX;
+								((ILushort*)(NewData))[j+3] = OpaqueShort;
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -936,7 +1005,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest);
 					CHECK_ALLOC();
 					Size = NumPix / 3;
 					switch (DestType)
@@ -948,7 +1017,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[j];
 								}
-								NewData[i] = (ILubyte)Resultf;
+								NewData[i] = (ILubyte)(Resultf + 0.5f);
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
@@ -959,7 +1028,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[j];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = (ILushort)(Resultf + 0.5f);
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -969,7 +1038,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -994,7 +1063,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3 * 2);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 2);
 					CHECK_ALLOC();
 					Size = NumPix / 3;
 					switch (DestType)
@@ -1006,7 +1075,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								NewData[i*2] = (ILubyte)Resultf;
+								NewData[i*2] = (ILubyte)(Resultf + 0.5f);
 								NewData[i*2+1] = UCHAR_MAX;
 							}
 							break;
@@ -1018,18 +1087,18 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i*2] = (ILushort)Resultf;
-								((ILushort*)(NewData))[i*2+1] = USHRT_MAX;
+								((ILushort*)(NewData))[i*2] = (ILushort)(Resultf + 0.5f);
+								((ILushort*)(NewData))[i*2+1] = OpaqueShort;
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = iLumToUint(Resultd);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -1057,7 +1126,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest);
 					CHECK_ALLOC();
 					memset(NewData, 0, NumPix * BpcDest / 3);
 					break;
@@ -1146,7 +1215,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_BGR:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 3 / 4);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest * 3);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -1193,7 +1262,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_RGB:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 3 / 4);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest * 3);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -1240,7 +1309,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest);
 					CHECK_ALLOC();
 					Size = NumPix / 4;
 					switch (DestType)
@@ -1252,7 +1321,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultf += ((ILubyte*)(Data))[i * 4 + c] * LumFactor[j];
 								}
-								NewData[i] = (ILubyte)Resultf;
+								NewData[i] = (ILubyte)(Resultf + 0.5f);
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
@@ -1263,7 +1332,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultf += ((ILushort*)(Data))[i * 4 + c] * LumFactor[j];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = (ILushort)(Resultf + 0.5f);
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -1273,7 +1342,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1298,7 +1367,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4 * 2);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest * 2);
 					CHECK_ALLOC();
 					Size = NumPix / 4 * 2;
 					switch (DestType)
@@ -1308,9 +1377,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
-								NewData[i] = (ILubyte)Resultf;
+								NewData[i] = (ILubyte)(Resultf + 0.5f);
 								NewData[i+1] = ((ILubyte*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -1320,9 +1389,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = (ILushort)(Resultf + 0.5f);
 								((ILushort*)(NewData))[i+1] = ((ILushort*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -1331,9 +1400,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -1341,7 +1410,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i] = (ILfloat)Resultd;
 								((ILfloat*)(NewData))[i+1] = ((ILfloat*)(Data))[i * 2 + 3];
@@ -1351,7 +1420,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i] = Resultd;
 								((ILdouble*)(NewData))[i+1] = ((ILdouble*)(Data))[i * 2 + 3];
@@ -1361,7 +1430,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4);
+					NewData = (ILubyte*)ialloc(NumPix / 4 * BpcDest);
 					CHECK_ALLOC();
 					Size = NumPix / 4;
 					switch (DestType)
@@ -1482,7 +1551,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									((ILushort*)(NewData))[j + c] = ((ILushort*)(Data))[i];
 								}
-								((ILushort*)(NewData))[j + 3] = USHRT_MAX;  // Full opacity
+								((ILushort*)(NewData))[j + 3] = OpaqueShort;  // Full opacity
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -1531,7 +1600,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_HALF:
 							for (i = 0; i < NumPix; i++) {
 								((ILushort*)(NewData))[i * 2] = ((ILushort*)(Data))[i];
-								((ILushort*)(NewData))[i * 2 + 1] = USHRT_MAX;  // Full opacity
+								((ILushort*)(NewData))[i * 2 + 1] = OpaqueShort;  // Full opacity
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -1559,7 +1628,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					iFillOpaque(NewData, NumPix, DestType);
 					break;
 
 				/*case IL_COLOUR_INDEX:
@@ -1596,7 +1665,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 			{
 				case IL_RGB:
 				case IL_BGR:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 2 * 3);
+					NewData = (ILubyte*)ialloc(NumPix / 2 * BpcDest * 3);
 					CHECK_ALLOC();
 
 					switch (DestType)
@@ -1645,7 +1714,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 
 				case IL_RGBA:
 				case IL_BGRA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 2 * 4);
+					NewData = (ILubyte*)ialloc(NumPix / 2 * BpcDest * 4);
 					CHECK_ALLOC();
 
 					switch (DestType)
@@ -1698,7 +1767,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_LUMINANCE:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 2);
+					NewData = (ILubyte*)ialloc(NumPix / 2 * BpcDest);
 					CHECK_ALLOC();
 
 					switch (DestType)
@@ -1736,7 +1805,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_ALPHA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 2);
+					NewData = (ILubyte*)ialloc(NumPix / 2 * BpcDest);
 					CHECK_ALLOC();
 					Size = NumPix / 2;
 					switch (DestType)
@@ -1744,30 +1813,30 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_BYTE:
 						case IL_BYTE:
 							for (i = 0; i < Size; i++) {
-								NewData[i] = ((ILubyte*)(Data))[i * 2 + 3];
+								NewData[i] = ((ILubyte*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
 						case IL_SHORT:
 						case IL_HALF:
 							for (i = 0; i < Size; i++) {
-								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 3];
+								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 3];
+								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_FLOAT:
 							for (i = 0; i < Size; i++) {
-								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 3];
+								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_DOUBLE:
 							for (i = 0; i < Size; i++) {
-								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 3];
+								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 1];
 							}
 							break;
 					}
@@ -1952,6 +2021,10 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					return NULL;
 			}
 			break;
+
+		default:
+			ilSetError(IL_INVALID_CONVERSION);
+			break;
 	}
 
 	if (Data != Buffer)
@@ -1972,7 +2045,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr;
 	ILfloat		*FloatPtr, tempFloat;
-	ILdouble	*DblPtr, tempDouble;
+	ILdouble	*DblPtr;
 	ILushort	*HalfPtr;
 
 	BpcSrc = ilGetBpcType(SrcType);
@@ -2002,6 +2075,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			BytePtr = (ILubyte*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_BYTE:
+				case IL_BYTE:
+					memcpy(NewData, Buffer, Size * BpcDest);
+					break;
 				case IL_UNSIGNED_SHORT:
 				case IL_SHORT:
 					for (i = 0; i < Size; i++) {
@@ -2016,34 +2093,18 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					break;
 				case IL_FLOAT:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_FLOATS
-							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							BytePtr[i] = (ILubyte)(tempFloat * UCHAR_MAX);
-						#else
-							BytePtr[i] = (ILubyte)(((ILfloat*)Buffer)[i] * UCHAR_MAX);
-						#endif
+						BytePtr[i] = iUnitToInt(((ILfloat*)Buffer)[i], UCHAR_MAX);
 					}
 					break;
 				case IL_HALF:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_HALF
-							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-							tempFloat = IL_CLAMP(tempFloat);					
-							BytePtr[i] = (ILubyte)(tempFloat * UCHAR_MAX);
-						#else
-							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-							BytePtr[i] = (ILubyte)(tempFloat * UCHAR_MAX);
-						#endif
+						*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
+						BytePtr[i] = iUnitToInt(tempFloat, UCHAR_MAX);
 					}
 					break;
 				case IL_DOUBLE:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_DOUBLES
-							tempDouble = IL_CLAMP(((ILdouble*)Buffer)[i]);
-							BytePtr[i] = (ILubyte)(tempDouble * UCHAR_MAX);
-						#else
-							BytePtr[i] = (ILubyte)( ((ILdouble*)Buffer)[i] * UCHAR_MAX);
-						#endif
+						BytePtr[i] = iUnitToInt(((ILdouble*)Buffer)[i], UCHAR_MAX);
 					}
 					break;
 			}
@@ -2054,6 +2115,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			ShortPtr = (ILushort*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_SHORT:
+				case IL_SHORT:
+					memcpy(NewData, Buffer, Size * BpcDest);
+					break;
 				case IL_UNSIGNED_BYTE:
 				case IL_BYTE:
 					for (i = 0; i < Size; i++) {
@@ -2068,34 +2133,18 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					break;
 				case IL_FLOAT:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_FLOATS
-							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							ShortPtr[i] = (ILushort)(tempFloat * USHRT_MAX);
-						#else
-							ShortPtr[i] = (ILushort)( ((ILfloat*)Buffer)[i] * USHRT_MAX);
-						#endif
+						ShortPtr[i] = iUnitToInt(((ILfloat*)Buffer)[i], USHRT_MAX);
 					}
 					break;
 				case IL_HALF:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_FLOATS
-							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-							tempFloat = IL_CLAMP(tempFloat);					
-							ShortPtr[i] = (ILushort)(tempFloat * USHRT_MAX);
-						#else
-							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-							ShortPtr[i] = (ILushort)(tempFloat * USHRT_MAX);
-						#endif
+						*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
+						ShortPtr[i] = iUnitToInt(tempFloat, USHRT_MAX);
 					}
 					break;
 				case IL_DOUBLE:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_DOUBLES
-							tempDouble = IL_CLAMP(((ILdouble*)Buffer)[i]);
-							ShortPtr[i] = (ILushort)(tempDouble * USHRT_MAX);
-						#else
-							ShortPtr[i] = (ILushort)( ((ILdouble*)Buffer)[i] * USHRT_MAX);
-						#endif
+						ShortPtr[i] = iUnitToInt(((ILdouble*)Buffer)[i], USHRT_MAX);
 					}
 					break;
 			}
@@ -2106,49 +2155,37 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			IntPtr = (ILuint*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_INT:
+				case IL_INT:
+					memcpy(NewData, Buffer, Size * BpcDest);
+					break;
 				case IL_UNSIGNED_BYTE:
 				case IL_BYTE:
 					for (i = 0; i < Size; i++) {
-						IntPtr[i] = (((ILubyte*)Buffer)[i] << 24) | (((ILubyte*)Buffer)[i] << 16) | 
+						IntPtr[i] = ((ILuint)((ILubyte*)Buffer)[i] << 24) | (((ILubyte*)Buffer)[i] << 16) | 
 							(((ILubyte*)Buffer)[i] << 8) | ((ILubyte*)Buffer)[i];
 					}
 					break;
 				case IL_UNSIGNED_SHORT:
 				case IL_SHORT:
 					for (i = 0; i < Size; i++) {
-						IntPtr[i] = (((ILushort*)Buffer)[i] << 16) | ((ILushort*)Buffer)[i];
+						IntPtr[i] = ((ILuint)((ILushort*)Buffer)[i] << 16) | ((ILushort*)Buffer)[i];
 					}
 					break;
 				case IL_FLOAT:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_FLOATS
-							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
-						#else
-							IntPtr[i] = (ILuint)( ((ILfloat*)Buffer)[i] * UINT_MAX);
-						#endif
+						IntPtr[i] = iUnitToInt(((ILfloat*)Buffer)[i], UINT_MAX);
 					}
 					break;
 				case IL_HALF:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_FLOATS
-							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-							tempFloat = IL_CLAMP(tempFloat);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
-						#else
 						*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-						IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
-						#endif
+						IntPtr[i] = iUnitToInt(tempFloat, UINT_MAX);
 					}
 					break;
 				case IL_DOUBLE:
 					for (i = 0; i < Size; i++) {
-						#if CLAMP_DOUBLES
-							tempDouble = IL_CLAMP(((ILdouble*)Buffer)[i]);
-							IntPtr[i] = (ILuint)(tempDouble * UINT_MAX);
-						#else
-							IntPtr[i] = (ILuint)( ((ILdouble*)Buffer)[i] * UINT_MAX);
-						#endif
+						IntPtr[i] = iUnitToInt(((ILdouble*)Buffer)[i], UINT_MAX);
 					}
 					break;
 			}
-- 
2.43.0


From 3fa02b6bb60ea175078d0e13162170ee0d1cfa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 052/185] fix: indexed images convert through the wrong image's
 palette, leak, lose alpha and depth; the colour key is never stored and
 recurses; type mode fails on indexed images

---
 DevIL/src-IL/src/il_convert.cpp | 604 ++++++++++----------------------
 1 file changed, 193 insertions(+), 411 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ef7aa63..da3498f 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -15,254 +15,134 @@
 #include <limits.h>
 
 
+// Expands a palette to 256 RGBA colours, entries it does not have are black.
+static ILboolean iExpandPal(ILpal *Pal, ILubyte Colours[256][4])
+{
+	ILuint i, Size, Num, Red;
+
+	Size = ilGetBppPal(Pal->PalType);
+	if (Pal->Palette == NULL || Size == 0 || Pal->PalSize < Size) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	Red = (Pal->PalType == IL_PAL_BGR24 || Pal->PalType == IL_PAL_BGR32 || Pal->PalType == IL_PAL_BGRA32) ? 2 : 0;
+	Num = IL_MIN(Pal->PalSize / Size, 256);
+	for (i = 0; i < 256; i++) {
+		Colours[i][0] = i < Num ? Pal->Palette[i * Size + Red] : 0;
+		Colours[i][1] = i < Num ? Pal->Palette[i * Size + 1] : 0;
+		Colours[i][2] = i < Num ? Pal->Palette[i * Size + 2 - Red] : 0;
+		Colours[i][3] = 0xFF;
+		if (i < Num && (Pal->PalType == IL_PAL_RGBA32 || Pal->PalType == IL_PAL_BGRA32))
+			Colours[i][3] = Pal->Palette[i * Size + 3];
+	}
+
+	return IL_TRUE;
+}
+
+
 ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 {
 	static const ILfloat LumFactor[3] = { 0.212671f, 0.715160f, 0.072169f };  // http://www.inforamp.net/~poynton/ and libpng's libpng.txt - Used for conversion to luminance.
-	ILimage		*NewImage = NULL, *CurImage = NULL;
-	ILuint		i, j, k, c, Size, LumBpp = 1;
+	ILimage		*NewImage = NULL;
+	ILuint		i, c, NumPix;
+	ILubyte		Colours[256][4], Converted[256][4];
 	ILfloat		Resultf;
-	ILubyte		*Temp = NULL;
-	ILboolean	Converted;
-	ILboolean	HasAlpha;
+
+	if (Image->Bpp != 1 || Image->Bpc != 1 || ilGetBppFormat(DestFormat) == 0) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return NULL;
+	}
+	if (!iExpandPal(&Image->Pal, Colours))
+		return NULL;
 
 	NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 	if (NewImage == NULL) {
-		return IL_FALSE;
+		return NULL;
 	}
 
-	ilCopyImageAttr(NewImage, Image);
-
-	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
+	NumPix = Image->SizeOfData;
+	NewImage->Width = Image->Width;
+	NewImage->Height = Image->Height;
+	NewImage->Depth = Image->Depth;
+	NewImage->Origin = Image->Origin;
+	NewImage->Format = DestFormat;
+	NewImage->Type = Image->Type;
+	NewImage->Bpc = 1;
+	NewImage->Bpp = (ILubyte)ilGetBppFormat(DestFormat);
+	if (NumPix > INT_MAX / NewImage->Bpp) {
+		ilCloseImage(NewImage);
+		ilSetError(IL_OUT_OF_MEMORY);
+		return NULL;
+	}
+	NewImage->Bps = NewImage->Width * NewImage->Bpp;
+	NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+	NewImage->SizeOfData = NumPix * NewImage->Bpp;
+	NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
+	if (NewImage->Data == NULL) {
 		ilCloseImage(NewImage);
-		ilSetError(IL_ILLEGAL_OPERATION);
 		return NULL;
 	}
 
-	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
-		if (DestFormat == IL_LUMINANCE_ALPHA)
-			LumBpp = 2;
-
-		switch (iCurImage->Pal.PalType)
-		{
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_RGBA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
-					Resultf = 0.0f;
-					for (c = 0; c < Size; c++) {
-						Resultf += Image->Pal.Palette[i + c] * LumFactor[c];
-					}
-					Temp[k] = (ILubyte)Resultf;
-					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
-							Temp[k+1] = Image->Pal.Palette[i + 3];
-						else
-							Temp[k+1] = 0xff;
-					}
-				}
-
-				break;
-
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-			case IL_PAL_BGRA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
-					Resultf = 0.0f;  j = 2;
-					for (c = 0; c < Size; c++, j--) {
-						Resultf += Image->Pal.Palette[i + c] * LumFactor[j];
-					}
-					Temp[k] = (ILubyte)Resultf;
-					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
-							Temp[k+1] = Image->Pal.Palette[i + 3];
-						else
-							Temp[k+1] = 0xff;
-					}
-				}
-
-				break;
-		}
-
-		NewImage->Pal.Palette = NULL;
-		NewImage->Pal.PalSize = 0;
-		NewImage->Pal.PalType = IL_PAL_NONE;
-		NewImage->Format = DestFormat;
-		NewImage->Bpp = LumBpp;
-		NewImage->Bps = NewImage->Width * LumBpp;
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
-		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
-		if (NewImage->Data == NULL)
-			goto alloc_error;
-
-		if (LumBpp == 2) {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
-			}
-		}
-		else {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = Temp[Image->Data[i]];
-			}
+	if (DestFormat == IL_COLOUR_INDEX) {
+		// Just copy the original image over.
+		NewImage->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
+		if (NewImage->Pal.Palette == NULL) {
+			ilCloseImage(NewImage);
+			return NULL;
 		}
-
-		ifree(Temp);
-
+		memcpy(NewImage->Data, Image->Data, NumPix);
+		memcpy(NewImage->Pal.Palette, Image->Pal.Palette, Image->Pal.PalSize);
+		NewImage->Pal.PalSize = Image->Pal.PalSize;
+		NewImage->Pal.PalType = Image->Pal.PalType;
 		return NewImage;
 	}
-	else if (DestFormat == IL_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
 
-		switch (iCurImage->Pal.PalType)
+	// Convert the colours of the palette to the format.
+	for (i = 0; i < 256; i++) {
+		switch (DestFormat)
 		{
-			// Opaque, so all the values are 0xFF.
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-				HasAlpha = IL_FALSE;
+			case IL_RGB:
+			case IL_RGBA:
+				memcpy(Converted[i], Colours[i], 4);
 				break;
 
-			case IL_PAL_BGRA32:
-			case IL_PAL_RGBA32:
-				HasAlpha = IL_TRUE;
-				Temp = (ILubyte*)ialloc(1 * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
+			case IL_BGR:
+			case IL_BGRA:
+				Converted[i][0] = Colours[i][2];
+				Converted[i][1] = Colours[i][1];
+				Converted[i][2] = Colours[i][0];
+				Converted[i][3] = Colours[i][3];
+				break;
 
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += 1) {
-					Temp[k] = Image->Pal.Palette[i + 3];
+			case IL_LUMINANCE:
+			case IL_LUMINANCE_ALPHA:
+				Resultf = 0.0f;
+				for (c = 0; c < 3; c++) {
+					Resultf += Colours[i][c] * LumFactor[c];
 				}
+				Converted[i][0] = (ILubyte)(Resultf + 0.5f);
+				Converted[i][1] = Colours[i][3];
+				break;
 
+			case IL_ALPHA:
+				Converted[i][0] = Colours[i][3];
 				break;
-		}
 
-		NewImage->Pal.Palette = NULL;
-		NewImage->Pal.PalSize = 0;
-		NewImage->Pal.PalType = IL_PAL_NONE;
-		NewImage->Format = DestFormat;
-		NewImage->Bpp = LumBpp;
-		NewImage->Bps = NewImage->Width * 1;  // Alpha is only one byte.
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
-		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
-		if (NewImage->Data == NULL)
-			goto alloc_error;
-
-		if (HasAlpha) {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
-			}
-		}
-		else {  // No alpha, opaque.
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = 0xFF;
-			}
+			default:
+				ilCloseImage(NewImage);
+				ilSetError(IL_INVALID_CONVERSION);
+				return NULL;
 		}
-
-		ifree(Temp);
-
-		return NewImage;
 	}
 
-	//NewImage->Format = ilGetPalBaseType(iCurImage->Pal.PalType);
-	NewImage->Format = DestFormat;
-
-	if (ilGetBppFormat(NewImage->Format) == 0) {
-		ilCloseImage(NewImage);
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return NULL;
-	}
-
-	CurImage = iCurImage;
-	ilSetCurImage(NewImage);
-
-	switch (DestFormat)
-	{
-		case IL_RGB:
-			Converted = ilConvertPal(IL_PAL_RGB24);
-			break;
-
-		case IL_BGR:
-			Converted = ilConvertPal(IL_PAL_BGR24);
-			break;
-
-		case IL_RGBA:
-			Converted = ilConvertPal(IL_PAL_RGB32);
-			break;
-
-		case IL_BGRA:
-			Converted = ilConvertPal(IL_PAL_BGR32);
-			break;
-
-		case IL_COLOUR_INDEX:
-			// Just copy the original image over.
-			NewImage->Data = (ILubyte*)ialloc(CurImage->SizeOfData);
-			if (NewImage->Data == NULL)
-				goto alloc_error;
-			NewImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (NewImage->Pal.Palette == NULL)
-				goto alloc_error;
-			memcpy(NewImage->Data, CurImage->Data, CurImage->SizeOfData);
-			memcpy(NewImage->Pal.Palette, Image->Pal.Palette, Image->Pal.PalSize);
-			NewImage->Pal.PalSize = Image->Pal.PalSize;
-			NewImage->Pal.PalType = Image->Pal.PalType;
-			ilSetCurImage(CurImage);
-			return NewImage;
-
-		default:
-			ilCloseImage(NewImage);
-			ilSetError(IL_INVALID_CONVERSION);
-			return NULL;
-	}
-
-	// Resize to new bpp
-	ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
-
-	// ilConvertPal already sets the error message - no need to confuse the user.
-	if (!Converted) {
-		ilSetCurImage(CurImage);
-		ilCloseImage(NewImage);
-		return NULL;
-	}
-
-	Size = ilGetBppPal(NewImage->Pal.PalType);
-	for (i = 0; i < Image->SizeOfData; i++) {
+	for (i = 0; i < NumPix; i++) {
 		for (c = 0; c < NewImage->Bpp; c++) {
-			NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[Image->Data[i] * Size + c];
+			NewImage->Data[i * NewImage->Bpp + c] = Converted[Image->Data[i]][c];
 		}
 	}
 
-	ifree(NewImage->Pal.Palette);
-
-	NewImage->Pal.Palette = NULL;
-	NewImage->Pal.PalSize = 0;
-	NewImage->Pal.PalType = IL_PAL_NONE;
-	ilSetCurImage(CurImage);
-
 	return NewImage;
-
-alloc_error:
-	ifree(Temp);
-	if (NewImage)
-		ilCloseImage(NewImage);
-	if (CurImage != iCurImage)
-		ilSetCurImage(CurImage);
-	return NULL;
 }
 
 
@@ -274,22 +154,33 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols);
 // Converts an image from one format to another
 ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenum DestType)
 {
-	ILimage	*NewImage, *CurImage;
-	ILuint	i;
+	ILimage	*NewImage;
+	ILuint	i, NumPix;
 	ILubyte	*NewData;
 
-	CurImage = Image;
-	if (Image == NULL) {
+	if (Image == NULL || Image->Data == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
-		return IL_FALSE;
+		return NULL;
+	}
+
+	if (ilGetBppFormat(DestFormat) == 0 || ilGetBpcType(DestType) == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return NULL;
 	}
 
 	// We don't support 16-bit color indices (or higher).
-	if (DestFormat == IL_COLOUR_INDEX && DestType >= IL_SHORT) {
+	if (DestFormat == IL_COLOUR_INDEX && ilGetBpcType(DestType) != 1) {
 		ilSetError(IL_INVALID_CONVERSION);
 		return NULL;
 	}
 
+	// The new image has to have a size that can be represented.
+	NumPix = Image->SizeOfData / (Image->Bpp * Image->Bpc);
+	if (NumPix > (ILuint)(INT_MAX / (ilGetBppFormat(DestFormat) * ilGetBpcType(DestType)))) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return NULL;
+	}
+
 	if (Image->Format == IL_COLOUR_INDEX) {
 		NewImage = iConvertPalette(Image, DestFormat);
 
@@ -300,19 +191,17 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		if (DestType == NewImage->Type)
 			return NewImage;
 
-		NewData = (ILubyte*)ilConvertBuffer(NewImage->SizeOfData, NewImage->Format, DestFormat, NewImage->Type, DestType, NULL, NewImage->Data);
+		// The colours of a palette are unsigned bytes, and so are indices.
+		NewData = (ILubyte*)ilConvertBuffer(NewImage->SizeOfData, NewImage->Format, DestFormat, IL_UNSIGNED_BYTE, DestType, NULL, NewImage->Data);
 		if (NewData == NULL) {
-			ifree(NewImage);  // ilCloseImage not needed.
+			ilCloseImage(NewImage);
 			return NULL;
 		}
 		ifree(NewImage->Data);
 		NewImage->Data = NewData;
 
-		ilCopyImageAttr(NewImage, Image);
-		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
-		NewImage->Bpp = ilGetBppFormat(DestFormat);
 		NewImage->Bps = NewImage->Bpp * NewImage->Bpc * NewImage->Width;
 		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
 		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
@@ -329,13 +218,10 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			return NULL;
 		}
 
-		if (ilGetBppFormat(DestFormat) == 0) {
-			ilSetError(IL_INVALID_PARAM);
-			ifree(NewImage);
-			return NULL;
-		}
-
-		ilCopyImageAttr(NewImage, Image);
+		NewImage->Width = Image->Width;
+		NewImage->Height = Image->Height;
+		NewImage->Depth = Image->Depth;
+		NewImage->Origin = Image->Origin;
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -348,17 +234,20 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			NewImage->Pal.PalSize = 768;
 			NewImage->Pal.PalType = IL_PAL_RGB24;
 			NewImage->Pal.Palette = (ILubyte*)ialloc(768);
+			if (NewImage->Pal.Palette == NULL) {
+				ilCloseImage(NewImage);
+				return NULL;
+			}
 			for (i = 0; i < 256; i++) {
 				NewImage->Pal.Palette[i * 3] = i;
 				NewImage->Pal.Palette[i * 3 + 1] = i;
 				NewImage->Pal.Palette[i * 3 + 2] = i;
 			}
-			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
+			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, IL_LUMINANCE, IL_LUMINANCE, Image->Type, IL_UNSIGNED_BYTE, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
 				ilCloseImage(NewImage);
 				return NULL;
 			}
-			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 		}
 		else {
 			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, DestFormat, Image->Type, DestType, NULL, Image->Data);
@@ -392,20 +281,23 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 	if (DestFormat == iCurImage->Format && DestType == iCurImage->Type)
 		return IL_TRUE;  // No conversion needed.
 
-	if (DestType == iCurImage->Type) {
+	if (DestType == iCurImage->Type && iCurImage->Next == NULL) {
 		if (iFastConvert(DestFormat)) {
 			iCurImage->Format = DestFormat;
 			return IL_TRUE;
 		}
 	}
 
-	if (ilIsEnabled(IL_USE_KEY_COLOUR)) {
-		ilAddAlphaKey(iCurImage);
-	}
-
 	pCurImage = iCurImage;
 	while (pCurImage != NULL)
 	{
+		// Only images without an alpha channel are keyed.
+		if (ilIsEnabled(IL_USE_KEY_COLOUR) && (pCurImage->Format == IL_RGB || pCurImage->Format == IL_BGR
+			|| pCurImage->Format == IL_COLOUR_INDEX)) {
+			if (!ilAddAlphaKey(pCurImage))
+				return IL_FALSE;
+		}
+
 		Image = iConvertImage(pCurImage, DestFormat, DestType);
 		if (Image == NULL)
 			return IL_FALSE;
@@ -443,7 +335,7 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 //	Must be either an 8, 24 or 32-bit (coloured) image (or palette).
 ILboolean ilSwapColours()
 {
-	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height;
+	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height * iCurImage->Depth;
 	ILbyte		PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr, Temp;
@@ -512,7 +404,7 @@ ILboolean ilSwapColours()
 	}
 
 	if (iCurImage->Format == IL_COLOUR_INDEX) {
-		for (; i < iCurImage->Pal.PalSize; i += PalBpp) {
+		for (; i + PalBpp <= iCurImage->Pal.PalSize; i += PalBpp) {
 				Temp = iCurImage->Pal.Palette[i];
 				iCurImage->Pal.Palette[i] = iCurImage->Pal.Palette[i+2];
 				iCurImage->Pal.Palette[i+2] = Temp;
@@ -575,10 +467,10 @@ ILboolean ilAddAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height / iCurImage->Bpc;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp + 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * (iCurImage->SizeOfData / iCurImage->Bpp));
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
@@ -661,12 +553,11 @@ ILboolean ilAddAlpha()
 }
 
 
-//ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
+static ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
 
 void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
-        KeyRed		= Red;
+	KeyRed		= Red;
 	KeyGreen	= Green;
 	KeyBlue		= Blue;
 	KeyAlpha	= Alpha;
@@ -678,11 +569,10 @@ void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclamp
 //	making the image transparent where Key is equal to the pixel.
 ILboolean ilAddAlphaKey(ILimage *Image)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
-        ILubyte		*NewData, NewBpp;
-	ILfloat		KeyColour[3];
-	ILuint		i = 0, j = 0, c, Size;
-	ILboolean	Same;
+	ILubyte		*NewData, NewBpp, *KeyData;
+	ILfloat		KeyColour[5];
+	ILpal		*NewPal;
+	ILuint		i, Size, NumPix;
 
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -695,7 +585,7 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			return IL_FALSE;
 		}
 
-		if (Image->Format == IL_BGR || Image->Format == IL_BGRA) {
+		if (Image->Format == IL_BGR) {
 			KeyColour[0] = KeyBlue;
 			KeyColour[1] = KeyGreen;
 			KeyColour[2] = KeyRed;
@@ -705,117 +595,33 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			KeyColour[1] = KeyGreen;
 			KeyColour[2] = KeyBlue;
 		}
+		KeyColour[3] = 0.0f;  // Transparent - matches key colour
+		KeyColour[4] = 1.0f;  // Opaque
 
-		Size = Image->Bps * Image->Height / Image->Bpc;
-
+		NumPix = Image->Width * Image->Height * Image->Depth;
 		NewBpp = (ILubyte)(Image->Bpp + 1);
-		
-		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height);
-		if (NewData == NULL) {
+		if (NumPix > (ILuint)(INT_MAX / (NewBpp * Image->Bpc))) {
+			ilSetError(IL_OUT_OF_MEMORY);
 			return IL_FALSE;
 		}
 
-		switch (Image->Type)
-		{
-			case IL_BYTE:
-			case IL_UNSIGNED_BYTE:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					NewData[j]   = Image->Data[i];
-					NewData[j+1] = Image->Data[i+1];
-					NewData[j+2] = Image->Data[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (Image->Data[i+c] != KeyColour[c] * UCHAR_MAX)
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						NewData[j+3] = 0;  // Transparent - matches key colour
-					else
-						NewData[j+3] = UCHAR_MAX;
-				}
-				break;
-
-			case IL_SHORT:
-			case IL_UNSIGNED_SHORT:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					((ILushort*)NewData)[j]   = ((ILushort*)Image->Data)[i];
-					((ILushort*)NewData)[j+1] = ((ILushort*)Image->Data)[i+1];
-					((ILushort*)NewData)[j+2] = ((ILushort*)Image->Data)[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILushort*)Image->Data)[i+c] != KeyColour[c] * USHRT_MAX)
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						((ILushort*)NewData)[j+3] = 0;
-					else
-						((ILushort*)NewData)[j+3] = USHRT_MAX;
-				}
-				break;
-
-			case IL_INT:
-			case IL_UNSIGNED_INT:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					((ILuint*)NewData)[j]   = ((ILuint*)Image->Data)[i];
-					((ILuint*)NewData)[j+1] = ((ILuint*)Image->Data)[i+1];
-					((ILuint*)NewData)[j+2] = ((ILuint*)Image->Data)[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILuint*)Image->Data)[i+c] != KeyColour[c] * UINT_MAX)
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						((ILuint*)NewData)[j+3] = 0;
-					else
-						((ILuint*)NewData)[j+3] = UINT_MAX;
-				}
-				break;
-
-			case IL_FLOAT:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					((ILfloat*)NewData)[j]   = ((ILfloat*)Image->Data)[i];
-					((ILfloat*)NewData)[j+1] = ((ILfloat*)Image->Data)[i+1];
-					((ILfloat*)NewData)[j+2] = ((ILfloat*)Image->Data)[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILfloat*)Image->Data)[i+c] != KeyColour[c])
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						((ILfloat*)NewData)[j+3] = 0.0f;
-					else
-						((ILfloat*)NewData)[j+3] = 1.0f;
-				}
-				break;
-
-			case IL_DOUBLE:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					((ILdouble*)NewData)[j]   = ((ILdouble*)Image->Data)[i];
-					((ILdouble*)NewData)[j+1] = ((ILdouble*)Image->Data)[i+1];
-					((ILdouble*)NewData)[j+2] = ((ILdouble*)Image->Data)[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILdouble*)Image->Data)[i+c] != KeyColour[c])
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						((ILdouble*)NewData)[j+3] = 0.0;
-					else
-						((ILdouble*)NewData)[j+3] = 1.0;
-				}
-				break;
-
-			default:
-				ifree(NewData);
-				ilSetError(IL_INTERNAL_ERROR);
-				return IL_FALSE;
+		// The key as it is stored in an image of this type
+		KeyData = (ILubyte*)ilConvertBuffer(sizeof(KeyColour), IL_LUMINANCE, IL_LUMINANCE, IL_FLOAT, Image->Type, NULL, KeyColour);
+		if (KeyData == NULL)
+			return IL_FALSE;
+		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * NumPix);
+		if (NewData == NULL) {
+			ifree(KeyData);
+			return IL_FALSE;
 		}
 
+		Size = Image->Bpp * Image->Bpc;
+		for (i = 0; i < NumPix; i++) {
+			memcpy(NewData + i * (Size + Image->Bpc), Image->Data + i * Size, Size);
+			memcpy(NewData + i * (Size + Image->Bpc) + Size,
+				KeyData + (memcmp(Image->Data + i * Size, KeyData, Size) ? Size + Image->Bpc : Size), Image->Bpc);
+		}
+		ifree(KeyData);
 
 		Image->Bpp = NewBpp;
 		Image->Bps = Image->Width * Image->Bpc * NewBpp;
@@ -840,45 +646,23 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			return IL_FALSE;
 		}
 
-		Size = ilGetInteger(IL_PALETTE_NUM_COLS);
-		if (Size == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
+		// Give the palette an alpha channel and make the colour index transparent.
+		NewPal = iConvertPal(&Image->Pal, IL_PAL_RGBA32);
+		if (NewPal == NULL)
 			return IL_FALSE;
-		}
 
-		if ((ILuint)(KeyAlpha * UCHAR_MAX) > Size) {
+		i = (ILuint)(IL_CLAMP(KeyAlpha) * UCHAR_MAX + 0.5f);
+		if (i >= NewPal->PalSize / 4) {
+			ifree(NewPal->Palette);
+			ifree(NewPal);
 			ilSetError(IL_INVALID_VALUE);
 			return IL_FALSE;
 		}
+		NewPal->Palette[i * 4 + 3] = 0;
 
-		switch (Image->Pal.PalType)
-		{
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_RGBA32:
-				if (!ilConvertPal(IL_PAL_RGBA32))
-					return IL_FALSE;
-				break;
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-			case IL_PAL_BGRA32:
-				if (!ilConvertPal(IL_PAL_BGRA32))
-					return IL_FALSE;
-				break;
-			default:
-				ilSetError(IL_INTERNAL_ERROR);
-				return IL_FALSE;
-		}
-
-		// Set the colour index to be transparent.
-		Image->Pal.Palette[(ILuint)(KeyAlpha * UCHAR_MAX) * 4 + 3] = 0;
-
-		// @TODO: Check if this is the required behaviour.
-
-		if (Image->Pal.PalType == IL_PAL_RGBA32)
-			ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE);
-		else
-			ilConvertImage(IL_BGRA, IL_UNSIGNED_BYTE);
+		ifree(Image->Pal.Palette);
+		Image->Pal = *NewPal;
+		ifree(NewPal);
 	}
 
 	return IL_TRUE;
@@ -902,10 +686,10 @@ ILboolean ilRemoveAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp - 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * (iCurImage->SizeOfData / iCurImage->Bpp));
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
@@ -985,6 +769,8 @@ ILboolean ilRemoveAlpha()
 
 ILboolean ilFixCur()
 {
+	ILenum Format, Type;
+
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
 		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
 			if (!ilFlipImage()) {
@@ -993,26 +779,22 @@ ILboolean ilFixCur()
 		}
 	}
 
+	Format = iCurImage->Format;
+	Type = iCurImage->Type;
 	if (ilIsEnabled(IL_TYPE_SET)) {
-		if ((ILenum)ilGetInteger(IL_TYPE_MODE) != iCurImage->Type) {
-			if (!ilConvertImage(iCurImage->Format, ilGetInteger(IL_TYPE_MODE))) {
-				return IL_FALSE;
-			}
-		}
-	}
-	if (ilIsEnabled(IL_FORMAT_SET)) {
-		if ((ILenum)ilGetInteger(IL_FORMAT_MODE) != iCurImage->Format) {
-			if (!ilConvertImage(ilGetInteger(IL_FORMAT_MODE), iCurImage->Type)) {
-				return IL_FALSE;
-			}
-		}
-	}
-
-	if (iCurImage->Format == IL_COLOUR_INDEX) {
-		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			if (!ilConvertImage(IL_BGR, IL_UNSIGNED_BYTE)) {
-				return IL_FALSE;
-			}
+		Type = ilGetInteger(IL_TYPE_MODE);
+		// Indices are always bytes, only the colours can have another type.
+		if (Format == IL_COLOUR_INDEX && ilGetBpcType(Type) != 1)
+			Format = ilGetPalBaseType(iCurImage->Pal.PalType);
+	}
+	if (ilIsEnabled(IL_FORMAT_SET))
+		Format = ilGetInteger(IL_FORMAT_MODE);
+	if (iCurImage->Format == IL_COLOUR_INDEX && Format == IL_COLOUR_INDEX && ilGetBoolean(IL_CONV_PAL) == IL_TRUE)
+		Format = IL_BGR;
+
+	if (Format != iCurImage->Format || Type != iCurImage->Type) {
+		if (!ilConvertImage(Format, Type)) {
+			return IL_FALSE;
 		}
 	}
 /*	Swap Colors on Big Endian !!!!!
-- 
2.43.0


From 39686895ac4bb1e28439b643d70b407bc32f4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 053/185] fix: palette files: null image crash, endless loop at
 end of file, leaks, unchecked sizes, saving changes the palette, ilApplyPal
 never works

---
 DevIL/src-IL/src/il_pal.cpp | 442 +++++++++++++-----------------------
 1 file changed, 156 insertions(+), 286 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index fd4a510..79b3c89 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -18,17 +18,31 @@
 #include <limits.h>
 
 
+// Replaces the palette of the current image, which takes over Palette.
+static void iSetCurPal(ILubyte *Palette, ILuint PalSize, ILenum PalType)
+{
+	ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = PalSize;
+	iCurImage->Pal.PalType = PalType;
+}
+
+
 //! Loads a palette from FileName into the current image's palette.
 ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 {
 	FILE		*f;
 	ILboolean	IsPsp;
-	char		Head[8];
+	char		Head[8] = { 0 };
 
 	if (FileName == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	if (iCheckExtension(FileName, IL_TEXT("col"))) {
 		return ilLoadColPal(FileName);
@@ -70,8 +84,8 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 	FILE *PalFile;
 	ILuint NumColours, i, c;
 	ILubyte Buff[BUFFLEN];
+	ILubyte *Palette;
 	ILboolean Error = IL_FALSE;
-	ILpal *Pal = &iCurImage->Pal;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -93,11 +107,6 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
 	iFgetw(Buff, BUFFLEN, PalFile);
 	if (stricmp((const char*)Buff, "JASC-PAL")) {
 		Error = IL_TRUE;
@@ -109,16 +118,14 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 
 	iFgetw(Buff, BUFFLEN, PalFile);
 	NumColours = atoi((const char*)Buff);
-	if (NumColours == 0 || Error) {
+	if (NumColours == 0 || NumColours > 256 || Error) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		fclose(PalFile);
 		return IL_FALSE;
 	}
 	
-	Pal->PalSize = NumColours * PALBPP;
-	Pal->PalType = IL_PAL_RGB24;
-	Pal->Palette = (ILubyte*)ialloc(NumColours * PALBPP);
-	if (Pal->Palette == NULL) {
+	Palette = (ILubyte*)ialloc(NumColours * PALBPP);
+	if (Palette == NULL) {
 		fclose(PalFile);
 		return IL_FALSE;
 	}
@@ -126,12 +133,20 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 	for (i = 0; i < NumColours; i++) {
 		for (c = 0; c < PALBPP; c++) {
 			iFgetw(Buff, BUFFLEN, PalFile);
-			Pal->Palette[i * PALBPP + c] = atoi((const char*)Buff);
+			Palette[i * PALBPP + c] = atoi((const char*)Buff);
 		}
 	}
 
+	if (feof(PalFile) && Buff[0] == '\0') {  // Cut short
+		ifree(Palette);
+		fclose(PalFile);
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 	fclose(PalFile);
 
+	iSetCurPal(Palette, NumColours * PALBPP, IL_PAL_RGB24);
+
 	return IL_TRUE;
 }
 
@@ -158,15 +173,17 @@ char *iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File)
 			while (Temp == ' ') {  // Just to get rid of any extra spaces
 				Temp = fgetc(File);
 			}
-			fseek(File, -1, IL_SEEK_CUR);  // Go back one
+			if (Temp != IL_EOF)
+				fseek(File, -1, IL_SEEK_CUR);  // Go back one
 			break;
 		}
 
 		if (!isprint(Temp)) {  // Skips any non-printing characters
-			while (!isprint(Temp)) {
+			while (!isprint(Temp) && Temp != IL_EOF) {
 				Temp = fgetc(File);
 			}
-			fseek(File, -1, IL_SEEK_CUR);
+			if (Temp != IL_EOF)
+				fseek(File, -1, IL_SEEK_CUR);
 			break;
 		}
 
@@ -180,7 +197,7 @@ char *iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File)
 
 ILboolean ILAPIENTRY ilSavePal(ILconst_string FileName)
 {
-	ILstring Ext = iGetExtension(FileName);
+	ILstring Ext = FileName ? iGetExtension(FileName) : NULL;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -215,7 +232,8 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 {
 	FILE	*PalFile;
 	ILuint	i, PalBpp, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
-	ILubyte	*CurPal;
+	ILpal	*Pal;
+	ILboolean Written;
 
 	if (iCurImage == NULL || NumCols == 0 || NumCols > 256) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -244,19 +262,9 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 	}
 
 	// Create a copy of the current palette and convert it to RGB24 format.
-	CurPal = iCurImage->Pal.Palette;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
-		iCurImage->Pal.Palette = CurPal;
-		return IL_FALSE;
-	}
-
-	memcpy(iCurImage->Pal.Palette, CurPal, iCurImage->Pal.PalSize);
-	if (!ilConvertPal(IL_PAL_RGB24)) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = CurPal;
+	Pal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+	if (Pal == NULL)
 		return IL_FALSE;
-	}
 
 #ifndef _UNICODE
 	PalFile = fopen(FileName, "wt");
@@ -264,6 +272,8 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 	PalFile = _wfopen(FileName, L"wt");
 #endif//_UNICODE
 	if (!PalFile) {
+		ifree(Pal->Palette);
+		ifree(Pal);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
@@ -271,10 +281,10 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 	// Header needed on all .pal files
 	fputs("JASC-PAL\n0100\n256\n", PalFile);
 
-	PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
-	for (i = 0; i < iCurImage->Pal.PalSize; i += PalBpp) {
+	PalBpp = ilGetBppPal(Pal->PalType);
+	for (i = 0; i < Pal->PalSize; i += PalBpp) {
 		fprintf(PalFile, "%d %d %d\n",
-			iCurImage->Pal.Palette[i], iCurImage->Pal.Palette[i+1], iCurImage->Pal.Palette[i+2]);
+			Pal->Palette[i], Pal->Palette[i+1], Pal->Palette[i+2]);
 	}
 
 	NumCols = 256 - NumCols;
@@ -282,12 +292,16 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 		fprintf(PalFile, "0 0 0\n");
 	}
 
-	ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = CurPal;
+	ifree(Pal->Palette);
+	ifree(Pal);
 
-	fclose(PalFile);
+	Written = !ferror(PalFile);
+	if (fclose(PalFile) != 0)
+		Written = IL_FALSE;
+	if (!Written)
+		ilSetError(IL_FILE_WRITE_ERROR);
 
-	return IL_TRUE;
+	return Written;
 }
 
 
@@ -297,6 +311,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 	ILHANDLE	HaloFile;
 	HALOHEAD	HaloHead;
 	ILushort	*TempPal;
+	ILubyte		*Palette;
 	ILuint		i, Size;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
@@ -315,10 +330,12 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1)
+	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1) {
+		icloser(HaloFile);
 		return IL_FALSE;
+	}
 
-	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3) {
+	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3 || HaloHead.MaxIndex > 255) {
 		icloser(HaloFile);
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
@@ -341,22 +358,22 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		ifree(iCurImage->Pal.Palette);
 		iCurImage->Pal.Palette = NULL;
 	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
+	Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL) {
 		icloser(HaloFile);
+		ifree(TempPal);
 		return IL_FALSE;
 	}
 
-	for (i = 0; i < iCurImage->Pal.PalSize; i++, TempPal++) {
-		iCurImage->Pal.Palette[i] = (ILubyte)*TempPal;
+	for (i = 0; i < Size; i++) {
+		Palette[i] = (ILubyte)TempPal[i];
 	}
-	TempPal -= iCurImage->Pal.PalSize;
 	ifree(TempPal);
 
 	icloser(HaloFile);
 
+	iSetCurPal(Palette, Size, IL_PAL_RGB24);
+
 	return IL_TRUE;
 }
 
@@ -370,6 +387,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 	ILuint		RealFileSize, FileSize;
 	ILushort	Version;
 	ILHANDLE	ColFile;
+	ILubyte		*Palette;
 
 	if (!iCheckExtension(FileName, IL_TEXT("col"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -387,17 +405,15 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
 	iseek(0, IL_SEEK_END);
-	RealFileSize = ftell((FILE*)ColFile);
+	RealFileSize = itell();
 	iseek(0, IL_SEEK_SET);
 
 	if (RealFileSize > 768) {  // has a header
-		fread(&FileSize, 4, 1, (FILE*)ColFile);
+		if (iread(&FileSize, 4, 1) != 1) {
+			icloser(ColFile);
+			return IL_FALSE;
+		}
 		if ((FileSize - 8) % 3 != 0) {  // check to make sure an even multiple of 3!
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -423,24 +439,22 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		}
 	}
 
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL) {
+	Palette = (ILubyte*)ialloc(768);
+	if (Palette == NULL) {
 		icloser(ColFile);
 		return IL_FALSE;
 	}
 
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
+	if (iread(Palette, 1, 768) != 768) {
 		icloser(ColFile);
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
+		ifree(Palette);
 		return IL_FALSE;
 	}
 
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-
 	icloser(ColFile);
 
+	iSetCurPal(Palette, 768, IL_PAL_RGB24);
+
 	return IL_TRUE;
 }
 
@@ -449,6 +463,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 ILboolean ilLoadActPal(ILconst_string FileName)
 {
 	ILHANDLE	ActFile;
+	ILubyte		*Palette;
 
 	if (!iCheckExtension(FileName, IL_TEXT("act"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -466,26 +481,22 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (!iCurImage->Pal.Palette) {
+	Palette = (ILubyte*)ialloc(768);
+	if (!Palette) {
 		icloser(ActFile);
 		return IL_FALSE;
 	}
 
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
+	if (iread(Palette, 1, 768) != 768) {
 		icloser(ActFile);
+		ifree(Palette);
 		return IL_FALSE;
 	}
 
 	icloser(ActFile);
 
+	iSetCurPal(Palette, 768, IL_PAL_RGB24);
+
 	return IL_TRUE;
 }
 
@@ -494,6 +505,8 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 ILboolean ilLoadPltPal(ILconst_string FileName)
 {
 	ILHANDLE	PltFile;
+	ILubyte		*Palette;
+	ILuint		PalSize;
 
 	if (!iCheckExtension(FileName, IL_TEXT("plt"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -511,32 +524,28 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalSize = GetLittleUInt();
-	if (iCurImage->Pal.PalSize == 0) {
+	PalSize = GetLittleUInt();
+	if (PalSize == 0 || PalSize > 768 || PalSize % 3 != 0) {
+		icloser(PltFile);
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
+	Palette = (ILubyte*)ialloc(PalSize);
+	if (!Palette) {
 		icloser(PltFile);
 		return IL_FALSE;
 	}
 
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
+	if (iread(Palette, PalSize, 1) != 1) {
+		ifree(Palette);
 		icloser(PltFile);
 		return IL_FALSE;
 	}
 
 	icloser(PltFile);
 
+	iSetCurPal(Palette, PalSize, IL_PAL_RGB24);
+
 	return IL_TRUE;
 }
 
@@ -586,7 +595,7 @@ ILAPI ILpal* ILAPIENTRY iCopyPal()
 // Converts the palette to the DestFormat format.
 ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 {
-	ILpal	*NewPal = NULL;
+	ILpal	*NewPal = NULL, WholePal;
 	ILuint	i, j, NewPalSize;
 
 	// Checks to see if the current image is valid and has a palette
@@ -599,6 +608,12 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 		return NULL;
 	}*/
 
+	// Only whole entries are converted.
+	WholePal = *Pal;
+	if (ilGetBppPal(Pal->PalType) != 0)
+		WholePal.PalSize -= Pal->PalSize % ilGetBppPal(Pal->PalType);
+	Pal = &WholePal;
+
 	NewPal = (ILpal*)ialloc(sizeof(ILpal));
 	if (NewPal == NULL) {
 		return NULL;
@@ -698,7 +713,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				default:
 					ilSetError(IL_INVALID_PARAM);
-					return NULL;
+					goto alloc_error;
 			}
 			break;
 
@@ -820,14 +835,14 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				default:
 					ilSetError(IL_INVALID_PARAM);
-					return NULL;
+					goto alloc_error;
 			}
 			break;
 
 
 		default:
 			ilSetError(IL_INVALID_PARAM);
-			return NULL;
+			goto alloc_error;
 	}
 
 	NewPal->PalType = DestFormat;
@@ -855,17 +870,7 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 	if (Pal == NULL)
 		return IL_FALSE;
 
-	ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.PalSize = Pal->PalSize;
-	iCurImage->Pal.PalType = Pal->PalType;
-
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		return IL_FALSE;
-	}
-	memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-
-	ifree(Pal->Palette);
+	iSetCurPal(Pal->Palette, Pal->PalSize, Pal->PalType);
 	ifree(Pal);
 	
 	return IL_TRUE;
@@ -875,22 +880,17 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 // Sets the current palette.
 ILAPI void ILAPIENTRY ilSetPal(ILpal *Pal)
 {
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILubyte *Palette;
 
 	if (Pal->Palette && Pal->PalSize && Pal->PalType != IL_PAL_NONE) {
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-		if (iCurImage->Pal.Palette == NULL)
+		Palette = (ILubyte*)ialloc(Pal->PalSize);
+		if (Palette == NULL)
 			return;
-		memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-		iCurImage->Pal.PalSize = Pal->PalSize;
-		iCurImage->Pal.PalType = Pal->PalType;
+		memcpy(Palette, Pal->Palette, Pal->PalSize);
+		iSetCurPal(Palette, Pal->PalSize, Pal->PalType);
 	}
 	else {
-		iCurImage->Pal.Palette = NULL;
-		iCurImage->Pal.PalSize = 0;
-		iCurImage->Pal.PalType = IL_PAL_NONE;
+		iSetCurPal(NULL, 0, IL_PAL_NONE);
 	}
 
 	return;
@@ -913,199 +913,69 @@ int sort_func(void *e1, void *e2)
 
 ILboolean ILAPIENTRY ilApplyPal(ILconst_string FileName)
 {
-	ILimage		Image, *CurImage = iCurImage;
+	ILimage		Image, *CurImage = iCurImage, *TempImage;
 	ILubyte		*NewData;
-	ILuint		*PalInfo, NumColours, NumPix, MaxDist, DistEntry=0, i, j;
+	ILuint		Dist, MinDist, DistEntry = 0, NumPix, i, j;
 	ILint		Dist1, Dist2, Dist3;
-	ILboolean	Same;
-	ILenum		Origin;
-//	COL_CUBE	*Cubes;
-
-    if( iCurImage == NULL || (iCurImage->Format != IL_BYTE || iCurImage->Format != IL_UNSIGNED_BYTE) ) {
-    	ilSetError(IL_ILLEGAL_OPERATION);
-        return IL_FALSE;
-    }
+	ILboolean	Loaded;
 
-	NewData = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * iCurImage->Depth);
-	if (NewData == NULL) {
+	if (iCurImage == NULL || (iCurImage->Type != IL_BYTE && iCurImage->Type != IL_UNSIGNED_BYTE)) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
 	iCurImage = &Image;
 	imemclear(&Image, sizeof(ILimage));
 	// IL_PAL_RGB24, because we don't want to make parts transparent that shouldn't be.
-	if (!ilLoadPal(FileName) || !ilConvertPal(IL_PAL_RGB24)) {
-		ifree(NewData);
-		iCurImage = CurImage;
+	Loaded = ilLoadPal(FileName) && ilConvertPal(IL_PAL_RGB24);
+	iCurImage = CurImage;
+	if (!Loaded) {
+		ifree(Image.Pal.Palette);
 		return IL_FALSE;
 	}
 
-	NumColours = Image.Pal.PalSize / 3;  // RGB24 is 3 bytes per entry.
-	PalInfo = (ILuint*)ialloc(NumColours * sizeof(ILuint));
-	if (PalInfo == NULL) {
+	NumPix = iCurImage->Width * iCurImage->Height * iCurImage->Depth;
+	NewData = (ILubyte*)ialloc(NumPix);
+	TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+	if (NewData == NULL || TempImage == NULL) {
 		ifree(NewData);
-		iCurImage = CurImage;
-		return IL_FALSE;
-	}
-
-	NumPix = CurImage->SizeOfData / ilGetBppFormat(CurImage->Format);
-	switch (CurImage->Format)
-	{
-		case IL_COLOUR_INDEX:
-			iCurImage = CurImage;
-			if (!ilConvertPal(IL_PAL_RGB24)) {
-				ifree(NewData);
-				ifree(PalInfo);
-				return IL_FALSE;
-			}
-
-			NumPix = iCurImage->Pal.PalSize / ilGetBppPal(iCurImage->Pal.PalType);
-			for (i = 0; i < NumPix; i++) {
-				for (j = 0; j < Image.Pal.PalSize; j += 3) {
-					// No need to perform a sqrt.
-					Dist1 = (ILint)iCurImage->Pal.Palette[i] - (ILint)Image.Pal.Palette[j];
-					Dist2 = (ILint)iCurImage->Pal.Palette[i+1] - (ILint)Image.Pal.Palette[j+1];
-					Dist3 = (ILint)iCurImage->Pal.Palette[i+2] - (ILint)Image.Pal.Palette[j+2];
-					PalInfo[j / 3] = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				iCurImage->Pal.Palette[i] = DistEntry;
-			}
-
-			for (i = 0; i < iCurImage->SizeOfData; i++) {
-				NewData[i] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			}
-			break;
-		case IL_RGB:
-		case IL_RGBA:
-			/*Cube = (COL_CUBE*)ialloc(NumColours * sizeof(COL_CUBE));
-			// @TODO:  Check if ialloc failed here!
-			for (i = 0; i < NumColours; i++)
-				memcpy(&Cubes[i].Val, Image.Pal.Palette[i * 3], 3);
-			for (j = 0; j < 3; j++) {
-				qsort(Cubes, NumColours, sizeof(COL_CUBE), sort_func);
-				Cubes[0].Min = 0;
-				Cubes[NumColours-1] = UCHAR_MAX;
-				NumColours--;
-				for (i = 1; i < NumColours; i++) {
-					Cubes[i].Min[CurSort] = Cubes[i-1].Val[CurSort] + 1;
-					Cubes[i-1].Max[CurSort] = Cubes[i].Val[CurSort] - 1;
-				}
-				CurSort++;
-				NumColours++;
-			}*/
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp) {
-				Same = IL_TRUE;
-				if (i != 0) {
-					for (j = 0; j < CurImage->Bpp; j++) {
-						if (CurImage->Data[i-CurImage->Bpp+j] != CurImage->Data[i+j]) {
-							Same = IL_FALSE;
-							break;
-						}
-					}
-				}
-				if (Same) {
-					NewData[i / CurImage->Bpp] = DistEntry;
-					continue;
-				}
-				for (j = 0; j < Image.Pal.PalSize; j += 3) {
-					// No need to perform a sqrt.
-					Dist1 = (ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j];
-					Dist2 = (ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j+1];
-					Dist3 = (ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j+2];
-					PalInfo[j / 3] = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i / CurImage->Bpp] = DistEntry;
-			}
-
-			break;
-
-		case IL_BGR:
-		case IL_BGRA:
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp) {
-				for (j = 0; j < NumColours; j++) {
-					// No need to perform a sqrt.
-					PalInfo[j] = ((ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j * 3]) *
-						((ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j * 3]) + 
-						((ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j * 3 + 1]) *
-						((ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j * 3 + 1]) +
-						((ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j * 3 + 2]) *
-						((ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j * 3 + 2]);
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i / CurImage->Bpp] = DistEntry;
-			}
-
-			break;
-
-		case IL_LUMINANCE:
-		case IL_LUMINANCE_ALPHA:
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp ) {
-				for (j = 0; j < NumColours; j++) {
-					// No need to perform a sqrt.
-					PalInfo[j] = ((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3]) + 
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 1]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 1]) +
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 2]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 2]);
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i] = DistEntry;
-			}
-
-			break;
-
-		default:  // Should be no other!
-			ilSetError(IL_INTERNAL_ERROR);
-			return IL_FALSE;
-	}
-
-	iCurImage = CurImage;
-	Origin = iCurImage->Origin;
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, 1,
-		IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NewData)) {
 		ifree(Image.Pal.Palette);
-		ifree(PalInfo);
-		ifree(NewData);
+		if (TempImage)
+			ilCloseImage(TempImage);
 		return IL_FALSE;
 	}
-	iCurImage->Origin = Origin;
 
-	iCurImage->Pal.Palette = Image.Pal.Palette;
-	iCurImage->Pal.PalSize = Image.Pal.PalSize;
-	iCurImage->Pal.PalType = Image.Pal.PalType;
-	ifree(PalInfo);
-	ifree(NewData);
+	// Find the closest colour of the palette for every pixel.
+	for (i = 0; i < NumPix; i++) {
+		if (i != 0 && !memcmp(TempImage->Data + i * 3, TempImage->Data + i * 3 - 3, 3)) {
+			NewData[i] = DistEntry;
+			continue;
+		}
+		MinDist = UINT_MAX;
+		for (j = 0; j < Image.Pal.PalSize / 3; j++) {
+			// No need to perform a sqrt.
+			Dist1 = (ILint)TempImage->Data[i * 3] - (ILint)Image.Pal.Palette[j * 3];
+			Dist2 = (ILint)TempImage->Data[i * 3 + 1] - (ILint)Image.Pal.Palette[j * 3 + 1];
+			Dist3 = (ILint)TempImage->Data[i * 3 + 2] - (ILint)Image.Pal.Palette[j * 3 + 2];
+			Dist = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
+			if (Dist < MinDist) {
+				DistEntry = j;
+				MinDist = Dist;
+			}
+		}
+		NewData[i] = DistEntry;
+	}
+	ilCloseImage(TempImage);
+
+	ifree(iCurImage->Data);
+	iCurImage->Data = NewData;
+	iCurImage->Format = IL_COLOUR_INDEX;
+	iCurImage->Type = IL_UNSIGNED_BYTE;
+	iCurImage->Bpp = 1;
+	iCurImage->Bps = iCurImage->Width;
+	iCurImage->SizeOfPlane = iCurImage->Bps * iCurImage->Height;
+	iCurImage->SizeOfData = iCurImage->SizeOfPlane * iCurImage->Depth;
+	iSetCurPal(Image.Pal.Palette, Image.Pal.PalSize, Image.Pal.PalType);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From d40a82eac43650c32e6359fe60d1c8623eac7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 054/185] fix: colour quantisation: division by zero on small
 images, uninitialised palette entries, wrong size of volumes and wide types,
 leaks, luminance ignores the colour limit

---
 DevIL/src-IL/src/il_convert.cpp   |  2 +-
 DevIL/src-IL/src/il_neuquant.cpp  | 15 ++++++++++++---
 DevIL/src-IL/src/il_quantizer.cpp | 17 +++++++++++++----
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index da3498f..330491a 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -206,7 +206,7 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
 		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 	}
-	else if (DestFormat == IL_COLOUR_INDEX && Image->Format != IL_LUMINANCE) {
+	else if (DestFormat == IL_COLOUR_INDEX && (Image->Format != IL_LUMINANCE || iGetInt(IL_MAX_QUANT_INDICES) < 256)) {
 		if (iGetInt(IL_QUANTIZATION_MODE) == IL_NEU_QUANT)
 			return iNeuQuant(Image, iGetInt(IL_MAX_QUANT_INDICES));
 		else // Assume IL_WU_QUANT otherwise.
diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index c00f4a0..b0922db 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -113,6 +113,8 @@ void initnet(ILubyte *thepic, ILint len, ILint sample)
 	thepicture = thepic;
 	lengthcount = len;
 	samplefac = sample;
+	if (lengthcount < minpicturebytes)
+		samplefac = 1;  // Use everything of a small image
 	
 	for (i=0; i<netsizethink; i++) {
 		p = network[i];
@@ -349,6 +351,8 @@ void learn()
 	lim = thepicture + lengthcount;
 	samplepixels = lengthcount/(3*samplefac);
 	delta = samplepixels/ncycles;
+	if (delta == 0)
+		delta = 1;
 	alpha = initalpha;
 	radius = initradius;
 	
@@ -359,7 +363,8 @@ void learn()
 	
 	// beginning 1D learning: initial radius=rad
 
-	if ((lengthcount%prime1) != 0) step = 3*prime1;
+	if (lengthcount < minpicturebytes) step = 3;
+	else if ((lengthcount%prime1) != 0) step = 3*prime1;
 	else {
 		if ((lengthcount%prime2) !=0) step = 3*prime2;
 		else {
@@ -427,11 +432,15 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 		ifree(NewImage);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
+	NewImage->Width = Image->Width;
+	NewImage->Height = Image->Height;
+	NewImage->Depth = Image->Depth;
+	NewImage->Origin = Image->Origin;
 	NewImage->Bpp = 1;
+	NewImage->Bpc = 1;
 	NewImage->Bps = Image->Width;
 	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * Image->Depth;
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0e00572..6e72a25 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -444,10 +444,11 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	//color_num = ImagePrecalculate(Image);
 
 	NewData = (ILubyte*)ialloc(Image->Width * Image->Height * Image->Depth);
-	Palette = (ILubyte*)ialloc(3 * num_alloced_colors);
+	Palette = (ILubyte*)icalloc(3, num_alloced_colors);  // Colours that are not needed are black.
 	if (!NewData || !Palette) {
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -460,6 +461,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		ifree(Ib);
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -594,7 +596,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		ifree(tag);
 		ifree(Qadd);
 
-		for (k = 0; k < NumCols; k++) {
+		for (k = 0; (ILint)k < K; k++) {
 			Palette[k * 3]     = lut_b[k];
 			Palette[k * 3 + 1] = lut_g[k];
 			Palette[k * 3 + 2] = lut_r[k];
@@ -614,13 +616,19 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 
 	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
 	if (NewImage == NULL) {
+		ifree(NewData);
+		ifree(Palette);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
+	NewImage->Width = Image->Width;
+	NewImage->Height = Image->Height;
+	NewImage->Depth = Image->Depth;
+	NewImage->Origin = Image->Origin;
 	NewImage->Bpp = 1;
+	NewImage->Bpc = 1;
 	NewImage->Bps = Image->Width;
 	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * Image->Depth;
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
@@ -639,5 +647,6 @@ error_label:
 	ifree(Ir);
 	ifree(tag);
 	ifree(Qadd);
+	ilCloseImage(TempImage);
 	return NULL;
 }
-- 
2.43.0


From 15829b1440fc6b40c0bcbf52fa9f2f6d527904d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 055/185] fix: SGI and TGA run-length compression wrote an
 extra byte per run; SGI runs could overflow a line, 16-bit SGI images were
 read and written with mixed up bytes, volumes and names corrupted the file

---
 DevIL/src-IL/src/il_rle.cpp |   7 +-
 DevIL/src-IL/src/il_sgi.cpp | 162 +++++++++++++++++-------------------
 2 files changed, 79 insertions(+), 90 deletions(-)

diff --git a/DevIL/src-IL/src/il_rle.cpp b/DevIL/src-IL/src/il_rle.cpp
index c572631..5f08e5a 100644
--- a/DevIL/src-IL/src/il_rle.cpp
+++ b/DevIL/src-IL/src/il_rle.cpp
@@ -17,7 +17,7 @@ ILboolean ilRleCompressLine(ILubyte *p, ILuint n, ILubyte bpp,
 	ILint		SameCount;		// number of identical adjacent pixels
 	ILint		RLEBufSize = 0; // count of number of bytes encoded
 	ILint		MaxRun;
-	const ILint bmp_pad_to_even = (ILint)(1 - ((size_t)q - *DestWidth) % 2);
+	const ILint bmp_pad_to_even = (ILint)(1 - (size_t)q % 2);
 
 	switch( CompressMode ) {
 		case IL_TGACOMP:
@@ -101,7 +101,6 @@ ILboolean ilRleCompressLine(ILubyte *p, ILuint n, ILubyte bpp,
 			n -= SameCount;
 			RLEBufSize += bpp + 1;
 			p += (SameCount - 1) * bpp;
-			*q++ = *p++;
 			switch(bpp) {
 				case 4:	*q++ = *p++;
 				case 3: *q++ = *p++;
@@ -145,8 +144,8 @@ ILuint ilRleCompress(ILubyte *Data, ILuint Width, ILuint Height, ILuint Depth, I
 	}
 	
 	if( CompressMode == IL_BMPCOMP ) { // add end of image
-		*(Data+DestW) = 0x00; DestW++;
-		*(Data+DestW) = 0x01; DestW++;
+		*(Dest+DestW) = 0x00; DestW++;
+		*(Dest+DestW) = 0x01; DestW++;
 	}
 
 	return DestW;
diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 3f07f65..bceff66 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -15,7 +15,6 @@
 #include "il_sgi.h"
 #include <limits.h>
 
-static char *FName = NULL;
 
 /*----------------------------------------------------------------------------*/
 
@@ -30,7 +29,6 @@ ILboolean ilIsValidSgi(ILconst_string FileName)
 		return bSgi;
 	}
 
-	FName = (char*)FileName;
 
 	SgiFile = iopenr(FileName);
 	if (SgiFile == NULL) {
@@ -65,7 +63,6 @@ ILboolean ilIsValidSgiF(ILHANDLE File)
 //! Checks if Lump is a valid .sgi lump.
 ILboolean ilIsValidSgiL(const void *Lump, ILuint Size)
 {
-	FName = NULL;
 	iSetInputLump(Lump, Size);
 	return iIsValidSgi();
 }
@@ -119,6 +116,11 @@ ILboolean iCheckSgi(iSgiHeader *Header)
 		return IL_FALSE;
 	if (Header->XSize == 0 || Header->YSize == 0 || Header->ZSize == 0)
 		return IL_FALSE;
+	// Nothing else can be held by an image.
+	if (Header->Bpc != 1 && Header->Bpc != 2)
+		return IL_FALSE;
+	if (Header->ZSize > 4)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
@@ -250,6 +252,7 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 		TempData[ixPlane] = (ILubyte*)ialloc(Head->XSize * Head->YSize * Head->Bpc);
 		if (TempData[ixPlane] == NULL)
 			goto cleanup_error;
+		imemclear(TempData[ixPlane], Head->XSize * Head->YSize * Head->Bpc);
 	}
 
 	// Read the Planes into the temporary memory
@@ -261,7 +264,10 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 			RleLen = LenTable[ixHeight + ixPlane * Head->YSize];
 			
 			// Seeks to the offset table position
-			iseek(RleOff, IL_SEEK_SET);
+			if (RleOff > 0x7FFFFFFF || iseek(RleOff, IL_SEEK_SET)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto cleanup_error;
+			}
 			if (iGetScanLine((TempData[ixPlane]) + (ixHeight * Head->XSize * Head->Bpc),
 				Head, RleLen) != Head->XSize * Head->Bpc) {
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -281,10 +287,10 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 	// Assemble the image from its planes
 	for (ixPixel = 0; ixPixel < iCurImage->SizeOfData;
 		ixPixel += Head->ZSize * Head->Bpc, ChanInt += Head->Bpc) {
-		for (ixPlane = 0; (ILint)ixPlane < Head->ZSize * Head->Bpc;	ixPlane += Head->Bpc) {
-			iCurImage->Data[ixPixel + ixPlane] = TempData[ixPlane][ChanInt];
+		for (ixPlane = 0; ixPlane < Head->ZSize; ixPlane++) {
+			iCurImage->Data[ixPixel + ixPlane * Head->Bpc] = TempData[ixPlane][ChanInt];
 			if (Head->Bpc == 2)
-				iCurImage->Data[ixPixel + ixPlane + 1] = TempData[ixPlane][ChanInt + 1];
+				iCurImage->Data[ixPixel + ixPlane * Head->Bpc + 1] = TempData[ixPlane][ChanInt + 1];
 		}
 	}
 
@@ -320,50 +326,34 @@ cleanup_error:
 
 ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 {
-	ILushort Pixel, Count;  // For current pixel
-	ILuint	 BppRead = 0, CurPos = 0, Bps = Head->XSize * Head->Bpc;
+	ILubyte	Pixel[2];  // Current pixel (big endian)
+	ILubyte	Packet;
+	ILuint	Count, BppRead = 0, CurPos = 0, Bps = Head->XSize * Head->Bpc, i;
 
 	while (BppRead < Length && CurPos < Bps)
 	{
-		Pixel = 0;
-		if (iread(&Pixel, Head->Bpc, 1) != 1)
+		if (iread(Pixel, Head->Bpc, 1) != 1)
 			return -1;
-		
-#ifndef __LITTLE_ENDIAN__
-		iSwapUShort(&Pixel);
-#endif
+		Packet = Pixel[Head->Bpc - 1];
 
-		if (!(Count = (Pixel & 0x7f)))  // If 0, line ends
+		if (!(Count = (Packet & 0x7f)))  // If 0, line ends
 			return CurPos;
-		if (Pixel & 0x80) {  // If top bit set, then it is a "run"
+		if (Count * Head->Bpc > Bps - CurPos)  // Does not fit into the line
+			return -1;
+		if (Packet & 0x80) {  // If top bit set, then it is a literal "run"
 			if (iread(ScanLine, Head->Bpc, Count) != Count)
 				return -1;
 			BppRead += Head->Bpc * Count + Head->Bpc;
-			ScanLine += Head->Bpc * Count;
-			CurPos += Head->Bpc * Count;
 		}
 		else {
-			if (iread(&Pixel, Head->Bpc, 1) != 1)
+			if (iread(Pixel, Head->Bpc, 1) != 1)
 				return -1;
-#ifndef __LITTLE_ENDIAN__
-			iSwapUShort(&Pixel);
-#endif
-			if (Head->Bpc == 1) {
-				while (Count--) {
-					*ScanLine = (ILubyte)Pixel;
-					ScanLine++;
-					CurPos++;
-				}
-			}
-			else {
-				while (Count--) {
-					*(ILushort*)ScanLine = Pixel;
-					ScanLine += 2;
-					CurPos += 2;
-				}
-			}
+			for (i = 0; i < Count * Head->Bpc; i++)
+				ScanLine[i] = Pixel[i % Head->Bpc];
 			BppRead += Head->Bpc + Head->Bpc;
 		}
+		ScanLine += Head->Bpc * Count;
+		CurPos += Head->Bpc * Count;
 	}
 
 	return CurPos;
@@ -375,7 +365,7 @@ ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 // Much easier to read - just assemble from planes, no decompression
 ILboolean iReadNonRleSgi(iSgiHeader *Head)
 {
-	ILuint		i, c;
+	ILuint		i, c, b, Bpc = Head->Bpc;
 	// ILint		ChanInt = 0; Unused
 	ILint 		ChanSize;
 	ILboolean	Cache = IL_FALSE;
@@ -391,11 +381,13 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	}
 
 	for (c = 0; c < iCurImage->Bpp; c++) {
-		for (i = c; i < iCurImage->SizeOfData; i += iCurImage->Bpp) {
-			if (iread(iCurImage->Data + i, 1, 1) != 1) {
-				if (Cache)
-					iUnCache();
-				return IL_FALSE;
+		for (i = c * Bpc; i < iCurImage->SizeOfData; i += iCurImage->Bpp * Bpc) {
+			for (b = 0; b < Bpc; b++) {
+				if (iread(iCurImage->Data + i + b, 1, 1) != 1) {
+					if (Cache)
+						iUnCache();
+					return IL_FALSE;
+				}
 			}
 		}
 	}
@@ -403,6 +395,11 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	if (Cache)
 		iUnCache();
 
+	#ifdef __LITTLE_ENDIAN__
+	if (Bpc == 2)
+		sgiSwitchData(iCurImage->Data, iCurImage->SizeOfData);
+	#endif
+
 	return IL_TRUE;
 }
 
@@ -442,24 +439,21 @@ void sgiSwitchData(ILubyte *Data, ILuint SizeOfData)
 // Just an internal convenience function for reading SGI files
 ILboolean iNewSgi(iSgiHeader *Head)
 {
-	if (!ilTexImage(Head->XSize, Head->YSize, Head->Bpc, (ILubyte)Head->ZSize, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+	ILenum	Format, Type;
 
 	switch (Head->ZSize)
 	{
 		case 1:
-			iCurImage->Format = IL_LUMINANCE;
+			Format = IL_LUMINANCE;
 			break;
 		/*case 2:
-			iCurImage->Format = IL_LUMINANCE_ALPHA; 
+			Format = IL_LUMINANCE_ALPHA;
 			break;*/
 		case 3:
-			iCurImage->Format = IL_RGB;
+			Format = IL_RGB;
 			break;
 		case 4:
-			iCurImage->Format = IL_RGBA;
+			Format = IL_RGBA;
 			break;
 		default:
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -469,22 +463,19 @@ ILboolean iNewSgi(iSgiHeader *Head)
 	switch (Head->Bpc)
 	{
 		case 1:
-			if (Head->PixMin < 0)
-				iCurImage->Type = IL_BYTE;
-			else
-				iCurImage->Type = IL_UNSIGNED_BYTE;
+			Type = Head->PixMin < 0 ? IL_BYTE : IL_UNSIGNED_BYTE;
 			break;
 		case 2:
-			if (Head->PixMin < 0)
-				iCurImage->Type = IL_SHORT;
-			else
-				iCurImage->Type = IL_UNSIGNED_SHORT;
+			Type = Head->PixMin < 0 ? IL_SHORT : IL_UNSIGNED_SHORT;
 			break;
 		default:
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
 
+	if (!ilTexImage(Head->XSize, Head->YSize, 1, (ILubyte)Head->ZSize, Format, Type, NULL)) {
+		return IL_FALSE;
+	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
 	return IL_TRUE;
@@ -562,7 +553,7 @@ ILenum DetermineSgiType(ILenum Type)
 ILboolean iSaveSgiInternal()
 {
 	ILuint		i, c;
-	ILboolean	Compress;
+	ILboolean	Compress, Saved = IL_TRUE;
 	ILimage		*Temp = iCurImage;
 	ILubyte		*TempData;
 
@@ -587,11 +578,18 @@ ILboolean iSaveSgiInternal()
 		Temp = iConvertImage(iCurImage, iCurImage->Format, DetermineSgiType(iCurImage->Type));
 	}
 	
+	if (Temp == NULL)
+		return IL_FALSE;
+
 	//compression of images with 2 bytes per channel doesn't work yet
 	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
 
-	if (Temp == NULL)
+	if (Temp->Width > 0xFFFF || Temp->Height > 0xFFFF) {
+		ilSetError(IL_INVALID_VALUE);  // The header cannot hold such sizes.
+		if (Temp != iCurImage)
+			ilCloseImage(Temp);
 		return IL_FALSE;
+	}
 
 	SaveBigUShort(SGI_MAGICNUM);  // 'Magic' number
 	if (Compress)
@@ -599,11 +597,7 @@ ILboolean iSaveSgiInternal()
 	else
 		iputc(0);
 
-	if (Temp->Type == IL_UNSIGNED_BYTE)
-		iputc(1);
-	else if (Temp->Type == IL_UNSIGNED_SHORT)
-		iputc(2);
-	// Need to error here if not one of the two...
+	iputc(Temp->Bpc);
 
 	if (Temp->Format == IL_LUMINANCE || Temp->Format == IL_COLOUR_INDEX)
 		SaveBigUShort(2);
@@ -636,19 +630,9 @@ ILboolean iSaveSgiInternal()
 
 	SaveBigInt(0);  // Dummy value
 
-	if (FName) {
-		c = ilCharStrLen(FName);
-		c = c < 79 ? 79 : c;
-		iwrite(FName, 1, c);
-		c = 80 - c;
-		for (i = 0; i < c; i++) {
-			iputc(0);
-		}
-	}
-	else {
-		for (i = 0; i < 80; i++) {
-			iputc(0);
-		}
+	// Image name
+	for (i = 0; i < 80; i++) {
+		iputc(0);
 	}
 
 	SaveBigUInt(0);  // Colormap
@@ -659,7 +643,7 @@ ILboolean iSaveSgiInternal()
 	}
 
 
-	if (iCurImage->Origin == IL_ORIGIN_UPPER_LEFT) {
+	if (Temp->Origin == IL_ORIGIN_UPPER_LEFT) {
 		TempData = iGetFlipped(Temp);
 		if (TempData == NULL) {
 			if (Temp!= iCurImage)
@@ -674,13 +658,17 @@ ILboolean iSaveSgiInternal()
 
 	if (!Compress) {
 		for (c = 0; c < Temp->Bpp; c++) {
-			for (i = c; i < Temp->SizeOfData; i += Temp->Bpp) {
-				iputc(TempData[i]);  // Have to save each colour plane separately.
+			for (i = c; i < Temp->Width * Temp->Height * Temp->Bpp; i += Temp->Bpp) {
+				// Have to save each colour plane separately.
+				if (Temp->Bpc == 1)
+					iputc(TempData[i]);
+				else
+					SaveBigUShort(((ILushort*)TempData)[i]);
 			}
 		}
 	}
 	else {
-		iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
+		Saved = iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
 	}
 
 
@@ -689,7 +677,7 @@ ILboolean iSaveSgiInternal()
 	if (Temp != iCurImage)
 		ilCloseImage(Temp);
 
-	return IL_TRUE;
+	return Saved;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -706,7 +694,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 
 	ScanLine = (ILubyte*)ialloc(w);
 	CompLine = (ILubyte*)ialloc(w * 2 + 1);  // Absolute worst case.
-	StartTable = (ILuint*)ialloc(h * numChannels * sizeof(ILuint));
+	StartTable = (ILuint*)icalloc(h * numChannels, sizeof(ILuint));
 	LenTable = (ILuint*)icalloc(h * numChannels, sizeof(ILuint));
 	if (!ScanLine || !CompLine || !StartTable || !LenTable) {
 		ifree(ScanLine);
@@ -721,7 +709,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
 
-	DataOff = itellw();
+	DataOff = sizeof(iSgiHeader) + 2 * h * numChannels * sizeof(ILuint);
 	for (c = 0; c < numChannels; c++) {
 		for (y = 0; y < h; y++) {
 			i = y * bps + c;
@@ -734,6 +722,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 		}
 	}
 
+	ILuint EndOff = itellw();
 	iseekw(TableOff, IL_SEEK_SET);
 
 	j = h * numChannels;
@@ -748,6 +737,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
+	iseekw(EndOff, IL_SEEK_SET);
 
 	ifree(ScanLine);
 	ifree(CompLine);
-- 
2.43.0


From 23884255e4f1f5e4741c4583c31094b2dcfa0d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 056/185] fix: TGA: colour maps with an offset or 16 bits,
 skipped colour maps, write past the RLE buffer for narrow images, wrong size
 query, image left swapped by failing saves

---
 DevIL/src-IL/src/il_size.cpp  |   4 +-
 DevIL/src-IL/src/il_targa.cpp | 326 +++++++++++++++-------------------
 2 files changed, 141 insertions(+), 189 deletions(-)

diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 28a069a..103a0ec 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -13,7 +13,6 @@
 #include "il_internal.h"
 
 
-ILuint iTargaSize(void);
 
 
 ILuint CurPos;  // Fake "file" pointer.
@@ -158,8 +157,7 @@ ILuint ilDetermineSize(ILenum Type)
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			//ilSaveTargaL(NULL, 0);
-			return iTargaSize();
+			ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 793ec7c..3db88e8 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -219,6 +219,9 @@ ILboolean iLoadTargaInternal()
 			return IL_FALSE;
 	}
 	
+	if (!bTarga)
+		return IL_FALSE;
+	
 	// @JASON Extra Code to manipulate the image depending on
 	// the Image Descriptor's origin bits.
 	iOrigin = Header.ImageDesc & IMAGEDESC_ORIGIN_MASK;
@@ -251,32 +254,32 @@ ILboolean iLoadTargaInternal()
 ILboolean iReadColMapTga(TARGAHEAD *Header)
 {
 	char		ID[255];
-	ILuint		i;
-	ILushort	Pixel;
+	ILuint		i, Start, EntSize;
+	ILubyte		Pixel[2];
 	
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
+	// Only 8 bit indices are supported.
+	if (Header->Bpp != 8 || Header->ColMapPresent != 1 || Header->ColMapLen <= 0 || Header->FirstEntry < 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (!ilTexImage(Header->Width, Header->Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize)
-		ifree(iCurImage->Pal.Palette);
-	
-	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalSize = Header->ColMapLen * (Header->ColMapEntSize >> 3);
 	
 	switch (Header->ColMapEntSize)
 	{
+		case 15:
 		case 16:
+		case 32:
 			iCurImage->Pal.PalType = IL_PAL_BGRA32;
-			iCurImage->Pal.PalSize = Header->ColMapLen * 4;
+			EntSize = 4;
 			break;
 		case 24:
 			iCurImage->Pal.PalType = IL_PAL_BGR24;
-			break;
-		case 32:
-			iCurImage->Pal.PalType = IL_PAL_BGRA32;
+			EntSize = 3;
 			break;
 		default:
 			// Should *never* reach here
@@ -284,29 +287,31 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 			return IL_FALSE;
 	}
 	
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+	// The indices count from 0, even if the file only stores the entries from FirstEntry on.
+	Start = Header->FirstEntry * EntSize;
+	iCurImage->Pal.PalSize = Start + Header->ColMapLen * EntSize;
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(iCurImage->Pal.PalSize, 1);
 	if (iCurImage->Pal.Palette == NULL) {
+		iCurImage->Pal.PalSize = 0;
+		iCurImage->Pal.PalType = IL_PAL_NONE;
 		return IL_FALSE;
 	}
 	
-	// Do we need to do something with FirstEntry?	Like maybe:
-	//	iread(Image->Pal + Targa->FirstEntry, 1, Image->Pal.PalSize);  ??
-	if (Header->ColMapEntSize != 16)
+	if (Header->ColMapEntSize > 16)
 	{
-		if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
+		if (iread(iCurImage->Pal.Palette + Start, 1, iCurImage->Pal.PalSize - Start) != iCurImage->Pal.PalSize - Start)
 			return IL_FALSE;
 	}
 	else {
 		// 16 bit palette, so we have to break it up.
-		for (i = 0; i < iCurImage->Pal.PalSize; i += 4)
+		for (i = Start; i < iCurImage->Pal.PalSize; i += 4)
 		{
-			Pixel = GetBigUShort();
-			if (ieof())
+			if (iread(Pixel, 1, 2) != 2)
 				return IL_FALSE;
-			iCurImage->Pal.Palette[3] = (Pixel & 0x8000) >> 12;
-			iCurImage->Pal.Palette[0] = (Pixel & 0xFC00) >> 7;
-			iCurImage->Pal.Palette[1] = (Pixel & 0x03E0) >> 2;
-			iCurImage->Pal.Palette[2] = (Pixel & 0x001F) << 3;
+			iCurImage->Pal.Palette[i]     = (Pixel[0] & 0x1F) << 3;
+			iCurImage->Pal.Palette[i + 1] = ((Pixel[1] & 0x03) << 6) | ((Pixel[0] & 0xE0) >> 2);
+			iCurImage->Pal.Palette[i + 2] = (Pixel[1] & 0x7C) << 1;
+			iCurImage->Pal.Palette[i + 3] = 255;
 		}
 	}
 	
@@ -329,12 +334,27 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 }
 
 
+// Skips the image ID, and the colour map of images that do not use it.
+static ILboolean iSkipTgaColMap(TARGAHEAD *Header)
+{
+	ILuint Size;
+
+	if (iseek(Header->IDLen, IL_SEEK_CUR))
+		return IL_FALSE;
+	if (Header->ColMapPresent == 1 && Header->ColMapLen > 0) {
+		Size = (ILuint)Header->ColMapLen * ((Header->ColMapEntSize + 7) / 8);
+		if (iseek(Size, IL_SEEK_CUR))
+			return IL_FALSE;
+	}
+	return IL_TRUE;
+}
+
+
 ILboolean iReadUnmapTga(TARGAHEAD *Header)
 {
 	ILubyte Bpp;
-	char	ID[255];
 	
-	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
+	if (!iSkipTgaColMap(Header))
 		return IL_FALSE;
 	
 	/*if (Header->Bpp == 16)
@@ -349,7 +369,7 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 	switch (iCurImage->Bpp)
 	{
 		case 1:
-			iCurImage->Format = IL_COLOUR_INDEX;  // wtf?  How is this possible?
+			iCurImage->Format = IL_LUMINANCE;  // wtf?  How is this possible?
 			break;
 		case 2:  // 16-bit is not supported directly!
 				 //iCurImage->Format = IL_RGB5_A1;
@@ -366,7 +386,7 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 			iCurImage->Format = IL_BGRA;
 			iCurImage->Type = IL_UNSIGNED_SHORT_1_5_5_5_REV;*/
 			
-			iCurImage->Format = IL_BGR;
+			iCurImage->Format = IL_LUMINANCE_ALPHA;  // Until it gets expanded below.
 			
 			break;
 		case 3:
@@ -381,11 +401,6 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 	}
 	
 	
-	// @TODO:  Determine this:
-	// We assume that no palette is present, but it's possible...
-	//	Should we mess with it or not?
-	
-	
 	if (Header->ImageType == TGA_UNMAP_COMP) {
 		if (!iUncompressTgaData(iCurImage)) {
 			return IL_FALSE;
@@ -410,14 +425,9 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 
 ILboolean iReadBwTga(TARGAHEAD *Header)
 {
-	char ID[255];
-	
-	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
+	if (!iSkipTgaColMap(Header))
 		return IL_FALSE;
 	
-	// We assume that no palette is present, but it's possible...
-	//	Should we mess with it or not?
-	
 	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
@@ -591,14 +601,13 @@ ILuint ilSaveTargaL(void *Lump, ILuint Size)
 // Internal function used to save the Targa.
 ILboolean iSaveTargaInternal()
 {
-	const char	*ID = iGetString(IL_TGA_ID_STRING);
-	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
-	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
+	char		*ID, *AuthName, *AuthComment;
+	ILuint		NameLen, CommentLen;
 	ILubyte 	IDLen = 0, UsePal, Type, PalEntSize;
 	ILshort 	ColMapStart = 0, PalSize;
 	ILubyte		Temp;
 	ILenum		Format;
-	ILboolean	Compress;
+	ILboolean	Compress, Saved = IL_TRUE;
 	ILuint		RleLen;
 	ILubyte 	*Rle;
 	ILpal		*TempPal = NULL;
@@ -620,18 +629,76 @@ ILboolean iSaveTargaInternal()
 	else
 		Compress = IL_FALSE;
 	
-	if (ID)
-		IDLen = (ILubyte)ilCharStrLen(ID);
+	// Anything a Targa cannot hold has to be converted first.
+	switch (iCurImage->Format)
+	{
+		case IL_COLOUR_INDEX:
+		case IL_BGR:
+		case IL_BGRA:
+		case IL_LUMINANCE:
+			Format = iCurImage->Format;
+			break;
+		case IL_RGB:
+			Format = IL_BGR;
+			break;
+		case IL_RGBA:
+			Format = IL_BGRA;
+			break;
+		default:
+			ilSetError(IL_INVALID_VALUE);
+			return IL_FALSE;
+	}
+	if (iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {
+		ilSetError(IL_INVALID_VALUE);  // The header cannot hold such sizes.
+		return IL_FALSE;
+	}
 	
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
+	if (Format == IL_COLOUR_INDEX) {
+		if (iCurImage->Pal.PalType == IL_PAL_BGR24)
+			TempPal = &iCurImage->Pal;
+		else
+			TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_BGR24);
+		if (TempPal == NULL)
+			return IL_FALSE;
+		PalSize = (ILshort)IL_MIN(TempPal->PalSize / 3, 256);
+		PalEntSize = 24;
 		UsePal = IL_TRUE;
-	else
+	}
+	else {
+		PalSize = 0;
+		PalEntSize = 0;
 		UsePal = IL_FALSE;
+	}
+	
+	if (Format != iCurImage->Format || iCurImage->Bpc > 1)
+		TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
+	else
+		TempImage = iCurImage;
+	if (TempImage != NULL) {
+		if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT)
+			TempData = (char*)iGetFlipped(TempImage);
+		else
+			TempData = (char*)TempImage->Data;
+	}
+	if (TempImage == NULL || TempData == NULL) {
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
+		if (TempPal != &iCurImage->Pal && TempPal != NULL) {
+			ifree(TempPal->Palette);
+			ifree(TempPal);
+		}
+		return IL_FALSE;
+	}
+	
+	ID = iGetString(IL_TGA_ID_STRING);
+	AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
+	AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
+	if (ID)
+		IDLen = (ILubyte)IL_MIN(ilCharStrLen(ID), 255);
 	
 	iwrite(&IDLen, sizeof(ILubyte), 1);
 	iwrite(&UsePal, sizeof(ILubyte), 1);
 
-	Format = iCurImage->Format;
 	switch (Format) {
 		case IL_COLOUR_INDEX:
 			if (Compress)
@@ -646,125 +713,57 @@ ILboolean iSaveTargaInternal()
 			else
 				Type = 2;
 			break;
-		case IL_RGB:
-		case IL_RGBA:
-			ilSwapColours();
-			if (Compress)
-				Type = 10;
-			else
-				Type = 2;
-			break;
-		case IL_LUMINANCE:
+		default:  // IL_LUMINANCE
 			if (Compress)
 				Type = 11;
 			else
 				Type = 3;
 			break;
-		default:
-			// Should convert the types here...
-			ilSetError(IL_INVALID_VALUE);
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
 	}
 	
 	iwrite(&Type, sizeof(ILubyte), 1);
 	SaveLittleShort(ColMapStart);
 	
-	switch (iCurImage->Pal.PalType)
-	{
-		case IL_PAL_NONE:
-			PalSize = 0;
-			PalEntSize = 0;
-			break;
-		case IL_PAL_BGR24:
-			PalSize = (ILshort)(iCurImage->Pal.PalSize / 3);
-			PalEntSize = 24;
-			TempPal = &iCurImage->Pal;
-			break;
-			
-		case IL_PAL_RGB24:
-		case IL_PAL_RGB32:
-		case IL_PAL_RGBA32:
-		case IL_PAL_BGR32:
-		case IL_PAL_BGRA32:
-			TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_BGR24);
-			if (TempPal == NULL)
-				return IL_FALSE;
-				PalSize = (ILshort)(TempPal->PalSize / 3);
-			PalEntSize = 24;
-			break;
-		default:
-			ilSetError(IL_INVALID_VALUE);
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			PalSize = 0;
-			PalEntSize = 0;
-			return IL_FALSE;
-	}
 	SaveLittleShort(PalSize);
 	iwrite(&PalEntSize, sizeof(ILubyte), 1);
 	
-	if (iCurImage->Bpc > 1) {
-		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL) {
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
-		}
-	}
-	else {
-		TempImage = iCurImage;
-	}
-	
-	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
-		TempData = (char*)iGetFlipped(TempImage);
-	}
-	else
-		TempData = (char*)TempImage->Data;
-	
 	// Write out the origin stuff.
 	iwrite(&zero_short, sizeof(ILshort), 1);
 	iwrite(&zero_short, sizeof(ILshort), 1);
 	
-	Temp = iCurImage->Bpp << 3;  // Changes to bits per pixel 
-	SaveLittleUShort((ILushort)iCurImage->Width);
-	SaveLittleUShort((ILushort)iCurImage->Height);
+	Temp = TempImage->Bpp << 3;  // Changes to bits per pixel 
+	SaveLittleUShort((ILushort)TempImage->Width);
+	SaveLittleUShort((ILushort)TempImage->Height);
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	
 	// Still don't know what exactly this is for...
 	// It's actually the 'Image Descriptor Byte'
 	// from wiki: Image descriptor (1 byte): bits 3-0 give the alpha channel depth, bits 5-4 give direction
 	Temp = 0;
-	if (iCurImage->Bpp > 3)
+	if (TempImage->Bpp > 3)
 		Temp = 8;
-	if (TempImage->Origin == IL_ORIGIN_UPPER_LEFT)
-		Temp |= 0x20; //set 5th bit
+	// The data is always written from the bottom up.
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	iwrite(ID, sizeof(char), IDLen);
-	ifree(ID);
 	//iwrite(ID, sizeof(ILbyte), IDLen - sizeof(ILuint));
 	//iwrite(&iCurImage->Depth, sizeof(ILuint), 1);
 	
 	// Write out the colormap
 	if (UsePal)
-		iwrite(TempPal->Palette, sizeof(ILubyte), TempPal->PalSize);
+		iwrite(TempPal->Palette, sizeof(ILubyte), PalSize * 3);
 	// else do nothing
 	
 	if (!Compress)
-		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
+		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfPlane);
 	else {
-		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
+		// A packet header per pixel is more than there can ever be.
+		Rle = (ILubyte*)ialloc((ILsizei)TempImage->SizeOfPlane + TempImage->Width * TempImage->Height);
 		if (Rle == NULL) {
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
+			Saved = IL_FALSE;
+			goto finish;
 		}
 		RleLen = ilRleCompress((unsigned char*)TempData, TempImage->Width, TempImage->Height,
-		                       TempImage->Depth, TempImage->Bpp, Rle, IL_TGACOMP, NULL);
+		                       1, TempImage->Bpp, Rle, IL_TGACOMP, NULL);
 		
 		iwrite(Rle, 1, RleLen);
 		ifree(Rle);
@@ -773,12 +772,12 @@ ILboolean iSaveTargaInternal()
 	// Write the extension area.
 	ExtOffset = itellw();
 	SaveLittleUShort(495);	// Number of bytes in the extension area (TGA 2.0 spec)
-	iwrite(AuthName, 1, ilCharStrLen(AuthName));
-	ipad(41 - ilCharStrLen(AuthName));
-	iwrite(AuthComment, 1, ilCharStrLen(AuthComment));
-	ipad(324 - ilCharStrLen(AuthComment));
-	ifree(AuthName);
-	ifree(AuthComment);
+	NameLen = IL_MIN(ilCharStrLen(AuthName), 40);
+	iwrite(AuthName, 1, NameLen);
+	ipad(41 - NameLen);
+	CommentLen = IL_MIN(ilCharStrLen(AuthComment), 323);
+	iwrite(AuthComment, 1, CommentLen);
+	ipad(324 - CommentLen);
 	
 	// Write time/date
 	iGetDateTime(&Month, &Day, &Year, &Hour, &Minute, &Second);
@@ -819,12 +818,13 @@ ILboolean iSaveTargaInternal()
 	SaveLittleUInt(0);	// No developer directory
 	iwrite(Footer, 1, ilCharStrLen(Footer)+1);
 	
-	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
+finish:
+	ifree(ID);
+	ifree(AuthName);
+	ifree(AuthComment);
+	if (TempData != (char*)TempImage->Data) {
 		ifree(TempData);
 	}
-	if (Format == IL_RGB || Format == IL_RGBA) {
-		ilSwapColours();
-	}
 	
 	if (TempPal != &iCurImage->Pal && TempPal != NULL) {
 		ifree(TempPal->Palette);
@@ -834,53 +834,7 @@ ILboolean iSaveTargaInternal()
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	return IL_TRUE;
-}
-
-
-// Only to be called by ilDetermineSize.  Returns the buffer size needed to save the
-//  current image as a Targa file.
-ILuint iTargaSize(void)
-{
-	ILuint	Size, Bpp;
-	ILubyte	IDLen = 0;
-	const char	*ID = iGetString(IL_TGA_ID_STRING);
-	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
-	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
-
-	//@TODO: Support color indexed images.
-	if (iGetInt(IL_TGA_RLE) == IL_TRUE || iCurImage->Format == IL_COLOUR_INDEX) {
-		// Use the slower method, since we are using compression.  We do a "fake" write.
-		ilSaveTargaL(NULL, 0);
-	}
-
-	if (ID)
-		IDLen = (ILubyte)ilCharStrLen(ID);
-
-	Size = 18 + IDLen;  // Header + ID
-
-	// Bpp may not be iCurImage->Bpp.
-	switch (iCurImage->Format)
-	{
-		case IL_BGR:
-		case IL_RGB:
-			Bpp = 3;
-			break;
-		case IL_BGRA:
-		case IL_RGBA:
-			Bpp = 4;
-			break;
-		case IL_LUMINANCE:
-			Bpp = 1;
-			break;
-		default:  //@TODO: Do not know what to do with the others yet.
-			return 0;
-	}
-
-	Size += iCurImage->Width * iCurImage->Height * Bpp;
-	Size += 532;  // Size of the extension area
-
-	return Size;
+	return Saved;
 }
 
 
-- 
2.43.0


From 35c8c5edae47cb28c0c448d2ecc03c92d06197b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 057/185] fix: BMP: palettes of fewer entries, bit fields
 before a palette, short OS/2 files, origin and format modes for OS/2 files,
 invalid headers and leaks when saving indexed images

---
 DevIL/src-IL/src/il_bmp.cpp | 261 ++++++++++++++++--------------------
 1 file changed, 114 insertions(+), 147 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 0ba5ef0..3612bbe 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -118,14 +118,15 @@ ILboolean iIsValidBmp()
 	OS2_HEAD	Os2Head;
 	ILboolean	IsValid;
 
+	ILuint		FirstPos = itell();
+
 	iGetBmpHead(&Head);
-	iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	iseek(FirstPos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	IsValid = iCheckBmp(&Head);
 	if (!IsValid) {
-		iGetOS2Head(&Os2Head);
-		iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);
-		IsValid = iCheckOS2(&Os2Head);
+		IsValid = iGetOS2Head(&Os2Head) && iCheckOS2(&Os2Head);
+		iseek(FirstPos, IL_SEEK_SET);
 	}
 	return IsValid;
 }
@@ -216,23 +217,24 @@ ILboolean iLoadBitmapInternal()
 	BMPHEAD		Header;
 	OS2_HEAD	Os2Head;
 	ILboolean	bBitmap;
+	ILuint		FirstPos;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	FirstPos = itell();
 	iGetBmpHead(&Header);
 	if (!iCheckBmp(&Header)) {
-		iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);
-		iGetOS2Head(&Os2Head);
-		if (!iCheckOS2(&Os2Head)) {
+		iseek(FirstPos, IL_SEEK_SET);
+		if (!iGetOS2Head(&Os2Head) || !iCheckOS2(&Os2Head)) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
-		else {
-			return iGetOS2Bmp(&Os2Head);
-		}
+		if (!iGetOS2Bmp(&Os2Head))
+			return IL_FALSE;
+		return ilFixImage();
 	}
 
 	// Don't know what to do if it has more than one plane...
@@ -260,10 +262,36 @@ ILboolean iLoadBitmapInternal()
 			return IL_FALSE;
 	}
 
-	if (!ilFixImage())
+	if (!bBitmap)
 		return IL_FALSE;
 
-	return bBitmap;
+	return ilFixImage();
+}
+
+
+// Gives the current image a palette of NumCols entries.
+static ILboolean iBmpNewPal(ILenum PalType, ILuint NumCols)
+{
+	ILuint Size = NumCols * (PalType == IL_PAL_BGR32 ? 4 : 3);
+
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(Size, 1);
+	if (iCurImage->Pal.Palette == NULL)
+		return IL_FALSE;
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = PalType;
+
+	return IL_TRUE;
+}
+
+
+// Number of entries in the palette of a bitmap with this many bits per pixel
+static ILuint iBmpNumCols(const BMPHEAD *Header, ILuint Bits)
+{
+	ILuint Max = 1 << Bits;
+
+	if (Header->biClrUsed > 0 && (ILuint)Header->biClrUsed < Max)
+		return Header->biClrUsed;
+	return Max;
 }
 
 
@@ -287,7 +315,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 		Bpp = 3;
 
 	// Update the current image with the new dimensions
-	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, Bpp, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Header->biWidth, Header->biHeight < 0 ? 0u - (ILuint)Header->biHeight : Header->biHeight, 1, Bpp, 0, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
@@ -295,31 +323,11 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 	switch (Header->biBitCount)
 	{
 		case 1:
-			//iCurImage->Format = IL_LUMINANCE;
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_BGR32;
-			iCurImage->Pal.PalSize = 2 * 4;
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
-				return IL_FALSE;
-			}
-			break;
-
 		case 4:
 		case 8:
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_BGR32;
-			
-			// if there are 256 colors biClrUsed is 0
-			iCurImage->Pal.PalSize = Header->biClrUsed ? 
-					Header->biClrUsed * 4 : 256 * 4;
-			
-			if (Header->biBitCount == 4)  // biClrUsed is 0 for 4-bit bitmaps
-				iCurImage->Pal.PalSize = 16 * 4;
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
+			if (!iBmpNewPal(IL_PAL_BGR32, iBmpNumCols(Header, Header->biBitCount)))
 				return IL_FALSE;
-			}
+			iCurImage->Format = IL_COLOUR_INDEX;
 			break;
 
 		case 16:
@@ -333,14 +341,6 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			return IL_FALSE;
 	}
 
-	// A height of 0 is illegal
-	if (Header->biHeight == 0) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		if (iCurImage->Pal.Palette)
-			ifree(iCurImage->Pal.Palette);
-		return IL_FALSE;
-	}
-
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
 	if (Header->biHeight < 0) {
@@ -352,11 +352,13 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 
 	// Read the palette
 	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-	if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
+	if (iCurImage->Pal.PalSize != 0 &&
+		iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
-	iseek(Header->bfDataOff, IL_SEEK_SET);
+	if (iseek(Header->bfDataOff, IL_SEEK_SET))
+		return IL_FALSE;
 
 	// We have to handle 1 and 4-bit images separately, because we have to expand them.
 	switch (Header->biBitCount)
@@ -432,10 +434,10 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			bShiftL = 3;
 			if (Header->biCompression == 3) //bitfields
 			{
-				iseek(Header->bfDataOff - 12, IL_SEEK_SET); //seek to bitfield data
-				iread(&rMask, 4, 1);
-				iread(&gMask, 4, 1);
-				iread(&bMask, 4, 1);
+				iseek(sizeof(BMPHEAD), IL_SEEK_SET); //seek to bitfield data
+				if (iread(&rMask, 4, 1) != 1 || iread(&gMask, 4, 1) != 1 || iread(&bMask, 4, 1) != 1)
+					return IL_FALSE;
+				iseek(Header->bfDataOff, IL_SEEK_SET);
 				UInt(&rMask);
 				UInt(&gMask);
 				UInt(&bMask);
@@ -508,10 +510,10 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			bShiftL = 0;
 			if (Header->biCompression == 3) //bitfields
 			{
-				iseek(Header->bfDataOff - 12, IL_SEEK_SET); //seek to bitfield data
-				iread(&rMask, 4, 1);
-				iread(&gMask, 4, 1);
-				iread(&bMask, 4, 1);
+				iseek(sizeof(BMPHEAD), IL_SEEK_SET); //seek to bitfield data
+				if (iread(&rMask, 4, 1) != 1 || iread(&gMask, 4, 1) != 1 || iread(&bMask, 4, 1) != 1)
+					return IL_FALSE;
+				iseek(Header->bfDataOff, IL_SEEK_SET);
 				UInt(&rMask);
 				UInt(&gMask);
 				UInt(&bMask);
@@ -555,23 +557,14 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 	size_t	offset = 0, count, endOfLine = Header->biWidth;
 
 	// Update the current image with the new dimensions
-	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, 1, 0, IL_UNSIGNED_BYTE, NULL))
+	if (!ilTexImage(Header->biWidth, Header->biHeight < 0 ? 0u - (ILuint)Header->biHeight : Header->biHeight, 1, 1, 0, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	// A height of 0 is illegal
-	if (Header->biHeight == 0)
+	if (!iBmpNewPal(IL_PAL_BGR32, iBmpNumCols(Header, 8)))
 		return IL_FALSE;
-
 	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalType = IL_PAL_BGR32;
-	iCurImage->Pal.PalSize = Header->biClrUsed * 4;  // 256 * 4 for most images
-	if (iCurImage->Pal.PalSize == 0)
-		iCurImage->Pal.PalSize = 256 * 4;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
-		return IL_FALSE;
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
@@ -584,7 +577,8 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
-	iseek(Header->bfDataOff, IL_SEEK_SET);
+	if (iseek(Header->bfDataOff, IL_SEEK_SET))
+		return IL_FALSE;
 
     while (offset < iCurImage->SizeOfData) {
 		if (iread(Bytes, sizeof(Bytes), 1) != 1)
@@ -635,22 +629,13 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
     size_t	offset = 0, count, endOfLine = Header->biWidth;
 
 	// Update the current image with the new dimensions
-	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, 1, 0, IL_UNSIGNED_BYTE, NULL))
+	if (!ilTexImage(Header->biWidth, Header->biHeight < 0 ? 0u - (ILuint)Header->biHeight : Header->biHeight, 1, 1, 0, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	// A height of 0 is illegal
-	if (Header->biHeight == 0) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
+	if (!iBmpNewPal(IL_PAL_BGR32, iBmpNumCols(Header, 4)))
 		return IL_FALSE;
-	}
-
 	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalType = IL_PAL_BGR32;
-	iCurImage->Pal.PalSize = 16 * 4; //Header->biClrUsed * 4;  // 16 * 4 for most images
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
-		return IL_FALSE;
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
@@ -664,7 +649,8 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
-	iseek(Header->bfDataOff, IL_SEEK_SET);
+	if (iseek(Header->bfDataOff, IL_SEEK_SET))
+		return IL_FALSE;
 
 	while (offset < iCurImage->SizeOfData) {
       int align;
@@ -723,6 +709,15 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 //changed 2003-09-01
 //deleted ilReadRLE4Bmp() USE_POINTER version
 
+// Number of palette entries between the header and the data
+static ILuint iOS2NumCols(OS2_HEAD *Header)
+{
+	ILuint Max = 1 << Header->cBitCount, Room = (Header->DataOff - 26) / 3;
+
+	return Room > 0 && Room < Max ? Room : Max;
+}
+
+
 ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 {
 	ILuint	PadSize, Read, i, j, k, c;
@@ -734,14 +729,9 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 		}
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(2 * 3);
-		if (iCurImage->Pal.Palette == NULL) {
+		if (!iBmpNewPal(IL_PAL_BGR24, iOS2NumCols(Header)))
 			return IL_FALSE;
-		}
-		iCurImage->Pal.PalSize = 2 * 3;
-		iCurImage->Pal.PalType = IL_PAL_BGR24;
-
-		if (iread(iCurImage->Pal.Palette, 1, 2 * 3) != 6)
+		if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
 			return IL_FALSE;
 
 		PadSize = ((32 - (iCurImage->Width % 32)) / 8) % 4;  // Has to truncate.
@@ -773,14 +763,9 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 		}
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(16 * 3);
-		if (iCurImage->Pal.Palette == NULL) {
+		if (!iBmpNewPal(IL_PAL_BGR24, iOS2NumCols(Header)))
 			return IL_FALSE;
-		}
-		iCurImage->Pal.PalSize = 16 * 3;
-		iCurImage->Pal.PalType = IL_PAL_BGR24;
-
-		if (iread(iCurImage->Pal.Palette, 1, 16 * 3) != 16*3)
+		if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
 			return IL_FALSE;
 
 		PadSize = ((8 - (iCurImage->Width % 8)) / 2) % 4;  // Has to truncate
@@ -806,14 +791,9 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 		if (!ilTexImage(Header->cx, Header->cy, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 			return IL_FALSE;
 
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(256 * 3);
-		if (iCurImage->Pal.Palette == NULL) {
+		if (!iBmpNewPal(IL_PAL_BGR24, iOS2NumCols(Header)))
 			return IL_FALSE;
-		}
-		iCurImage->Pal.PalSize = 256 * 3;
-		iCurImage->Pal.PalType = IL_PAL_BGR24;
-
-		if (iread(iCurImage->Pal.Palette, 1, 256 * 3) != 256*3)
+		if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
 			return IL_FALSE;
 	}
 	else { //has to be 24 bpp
@@ -900,7 +880,8 @@ ILboolean iSaveBitmapInternal()
 	int compress_rle8 = IL_FALSE; // disabled BMP RLE compression. broken
 	ILuint	FileSize, i, PadSize, Padding = 0;
 	ILimage	*TempImage = NULL;
-	ILpal	*TempPal;
+	ILpal	*TempPal = NULL;
+	ILuint	PalSize = 0;
 	ILubyte	*TempData;
 
 	if (iCurImage == NULL) {
@@ -908,45 +889,6 @@ ILboolean iSaveBitmapInternal()
 		return IL_FALSE;
 	}
 
-	iputc('B');  // Comprises the
-	iputc('M');  //  "signature"
-	
-	SaveLittleUInt(0);  // Will come back and change later in this function (filesize)
-	SaveLittleUInt(0);  // Reserved
-
-	if (compress_rle8 == IL_TRUE)
-	{
-		TempImage = iConvertImage(iCurImage, IL_COLOR_INDEX, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
-			return IL_FALSE;
-		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_BGR32);
-		if (TempPal == NULL)
-		{
-			ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
-	}
-
-	// If the current image has a palette, take care of it
-	TempPal = &iCurImage->Pal;
-	if( iCurImage->Pal.PalSize && iCurImage->Pal.Palette && iCurImage->Pal.PalType != IL_PAL_NONE ) {
-		// If the palette in .bmp format, write it directly
-		if (iCurImage->Pal.PalType == IL_PAL_BGR32) {
-			TempPal = &iCurImage->Pal;
-		} else {
-			TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_BGR32);
-			if (TempPal == NULL) {
-				return IL_FALSE;
-			}
-		}
-	}
-
-	SaveLittleUInt(54 + TempPal->PalSize);  // Offset of the data
-	
-	//Changed 20040923: moved this block above writing of
-	//BITMAPINFOHEADER, so that the written header refers to
-	//TempImage instead of the original image
-	
 	// @TODO LUMINANCE converted to BGR insteaf of beign saved to luminance
 	if (iCurImage->Format != IL_BGR && iCurImage->Format != IL_BGRA && iCurImage->Format != IL_COLOUR_INDEX) {
 		if (iCurImage->Format == IL_RGBA) {
@@ -964,18 +906,46 @@ ILboolean iSaveBitmapInternal()
 		TempImage = iCurImage;
 	}
 
+	// If the image has a palette, take care of it
+	if (TempImage->Format == IL_COLOUR_INDEX) {
+		// If the palette in .bmp format, write it directly
+		if (TempImage->Pal.PalType == IL_PAL_BGR32) {
+			TempPal = &TempImage->Pal;
+		} else {
+			TempPal = iConvertPal(&TempImage->Pal, IL_PAL_BGR32);
+		}
+		if (TempPal == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
+		PalSize = IL_MIN(TempPal->PalSize / 4, 256) * 4;
+	}
+
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempPal != NULL && TempPal != &TempImage->Pal) {
+				ifree(TempPal->Palette);
+				ifree(TempPal);
+			}
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
 		TempData = TempImage->Data;
 	}
 
+	iputc('B');  // Comprises the
+	iputc('M');  //  "signature"
+	
+	SaveLittleUInt(0);  // Will come back and change later in this function (filesize)
+	SaveLittleUInt(0);  // Reserved
+	SaveLittleUInt(54 + PalSize);  // Offset of the data
+
 	SaveLittleUInt(0x28);  // Header size
-	SaveLittleUInt(iCurImage->Width);
+	SaveLittleUInt(TempImage->Width);
 
 	// Removed because some image viewers don't like the negative height.
 	// even if it is standard. @TODO should be enabled or disabled
@@ -996,14 +966,11 @@ ILboolean iSaveBitmapInternal()
 	SaveLittleInt(0);  // (Obsolete)
 	SaveLittleInt(0);  // (Obsolete)
 
-	if (TempImage->Pal.PalType != IL_PAL_NONE) {
-		SaveLittleInt(ilGetInteger(IL_PALETTE_NUM_COLS));  // Num colours used
-	} else {
-		SaveLittleInt(0);
-	}
+	SaveLittleInt(PalSize / 4);  // Num colours used
 	SaveLittleInt(0);  // Important colour (none)
 
-	iwrite(TempPal->Palette, 1, TempPal->PalSize);
+	if (PalSize != 0)
+		iwrite(TempPal->Palette, 1, PalSize);
 
 	
 	if( compress_rle8 == IL_TRUE ) {
@@ -1030,7 +997,7 @@ ILboolean iSaveBitmapInternal()
 	iseekw(2, IL_SEEK_SET);
 	SaveLittleUInt(FileSize);
 
-	if (TempPal != &iCurImage->Pal) {
+	if (TempPal != NULL && TempPal != &TempImage->Pal) {
 		ifree(TempPal->Palette);
 		ifree(TempPal);
 	}
-- 
2.43.0


From ef32e44d3cdd952ec1ca8bd43c5e4750330ca0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 058/185] fix: BGR images without alpha became transparent, RGB
 ones opaque, when converted to IL_ALPHA

---
 DevIL/src-IL/src/il_convbuff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 9fcb601..2685913 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -1128,7 +1128,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest / 3);
+					iFillOpaque(NewData, NumPix / 3, DestType);
 					break;
 
 				default:
-- 
2.43.0


From 2ac33f4807ab837a5c8a10a4a0fb7d51c1a93eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 059/185] fix: converting BGR to luminance with alpha weighted
 blue as red

---
 DevIL/src-IL/src/il_convbuff.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 2685913..5cbbd77 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -1073,7 +1073,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								NewData[i*2] = (ILubyte)(Resultf + 0.5f);
 								NewData[i*2+1] = UCHAR_MAX;
@@ -1085,7 +1085,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILushort*)(NewData))[i*2] = (ILushort)(Resultf + 0.5f);
 								((ILushort*)(NewData))[i*2+1] = OpaqueShort;
@@ -1096,7 +1096,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILuint*)(NewData))[i*2] = iLumToUint(Resultd);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
@@ -1106,7 +1106,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i*2] = Resultf;
 								((ILfloat*)(NewData))[i*2+1] = 1.0f;
@@ -1116,7 +1116,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i*2] = Resultd;
 								((ILdouble*)(NewData))[i*2+1] = 1.0;
-- 
2.43.0


From 1d004e638566f081655090585aae019ab6871b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 060/185] fix: palette files were read through whatever was
 loaded last, crashing when nothing was

---
 DevIL/src-IL/src/il_pal.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index 79b3c89..c76ccfc 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -329,6 +329,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(HaloFile);
 
 	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1) {
 		icloser(HaloFile);
@@ -404,6 +405,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(ColFile);
 
 	iseek(0, IL_SEEK_END);
 	RealFileSize = itell();
@@ -480,6 +482,7 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(ActFile);
 
 	Palette = (ILubyte*)ialloc(768);
 	if (!Palette) {
@@ -523,6 +526,7 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(PltFile);
 
 	PalSize = GetLittleUInt();
 	if (PalSize == 0 || PalSize > 768 || PalSize % 3 != 0) {
-- 
2.43.0


From b833a64396f35d0d5235c2aaade2ce19a02f6e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 061/185] fix: scaling read outside of the image, ignored
 64-bit and float types and allocation failures and darkened constant images

---
 DevIL/include/IL/devil_internal_exports.h |   2 +
 DevIL/src-IL/src/il_devil.cpp             |   4 +-
 DevIL/src-ILU/src/ilu_filter_rcg.cpp      |  24 +-
 DevIL/src-ILU/src/ilu_scale.cpp           | 149 ++--------
 DevIL/src-ILU/src/ilu_scale2d.cpp         | 330 +++++++---------------
 DevIL/src-ILU/src/ilu_scale3d.cpp         |  28 +-
 6 files changed, 172 insertions(+), 365 deletions(-)

diff --git a/DevIL/include/IL/devil_internal_exports.h b/DevIL/include/IL/devil_internal_exports.h
index fd07d06..ad89f4c 100644
--- a/DevIL/include/IL/devil_internal_exports.h
+++ b/DevIL/include/IL/devil_internal_exports.h
@@ -138,6 +138,8 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage   (ILimage *Image, ILuint Width, ILuint
 ILAPI ILboolean ILAPIENTRY ilTexImage_     (ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data);
 ILAPI ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data);
 ILAPI ILboolean ILAPIENTRY ilTexSubImage_  (ILimage *Image, void *Data);
+ILAPI ILdouble  ILAPIENTRY iGetChannel     (const ILubyte *Data, ILenum Type, ILuint Index);
+ILAPI void      ILAPIENTRY iPutChannel     (ILubyte *Data, ILenum Type, ILuint Index, ILdouble Value);
 ILAPI void*     ILAPIENTRY ilConvertBuffer (ILuint SizeOfData, ILenum SrcFormat, ILenum DestFormat, ILenum SrcType, ILenum DestType, ILpal *SrcPal, void *Buffer);
 ILAPI ILimage*  ILAPIENTRY iConvertImage   (ILimage *Image, ILenum DestFormat, ILenum DestType);
 ILAPI ILpal*    ILAPIENTRY iConvertPal     (ILpal *Pal, ILenum DestFormat);
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 3ccb8e8..42c5710 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -746,7 +746,7 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 
 
 // Reads one channel of a pixel, 0.0 - 1.0 for the integer types.
-static ILdouble iGetChannel(const ILubyte *Data, ILenum Type, ILuint Index)
+ILAPI ILdouble ILAPIENTRY iGetChannel(const ILubyte *Data, ILenum Type, ILuint Index)
 {
 	ILuint	Bits;
 	ILfloat	Float;
@@ -776,7 +776,7 @@ static ILdouble iGetChannel(const ILubyte *Data, ILenum Type, ILuint Index)
 
 
 // Writes one channel of a pixel, see iGetChannel.
-static void iPutChannel(ILubyte *Data, ILenum Type, ILuint Index, ILdouble Value)
+ILAPI void ILAPIENTRY iPutChannel(ILubyte *Data, ILenum Type, ILuint Index, ILdouble Value)
 {
 	ILuint	Bits;
 	ILfloat	Float = (ILfloat)Value;
diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 269408a..fc56091 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -308,7 +308,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 	/* create intermediate column to hold horizontal dst column zoom */
 	tmp = (ILubyte*)ialloc(src->Height * sizeof(ILubyte));
 	if (tmp == NULL) {
-		return 0;
+		return -1;
 	}
 
 	xscale = (double) dst->Width / (double) src->Width;
@@ -332,11 +332,8 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].n = 0;
 			contribY[i].p = (CONTRIB*)icalloc((int) (width * 2 + 1),
 					sizeof(CONTRIB));
-			if(contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
-			}
+			if(contribY[i].p == NULL)
+				goto __zoom_cleanup;
 			center = (double) i / yscale;
 			left = ceil(center - width);
 			right = floor(center + width);
@@ -354,11 +351,8 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].n = 0;
 			contribY[i].p = (CONTRIB*)icalloc((int) (fwidth * 2 + 1),
 					sizeof(CONTRIB));
-			if (contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
-			}
+			if (contribY[i].p == NULL)
+				goto __zoom_cleanup;
 			center = (double) i / yscale;
 			left = ceil(center - fwidth);
 			right = floor(center + fwidth);
@@ -473,15 +467,21 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 	}
 
 	Dest = ilNewImage(Width, Height, 1, iluCurImage->Bpp, 1);
+	if (Dest == NULL)
+		return IL_FALSE;
 	Dest->Origin = iluCurImage->Origin;
 	Dest->Duration = iluCurImage->Duration;
 	for (c = 0; c < (ILuint)iluCurImage->Bpp; c++) {
 		if (zoom(Dest, iluCurImage, f, s) != 0) {
+			ilCloseImage(Dest);
 			return IL_FALSE;
 		}
 	}
 
-	ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data);
+	if (!ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data)) {
+		ilCloseImage(Dest);
+		return IL_FALSE;
+	}
 	iluCurImage->Origin = Dest->Origin;
 	iluCurImage->Duration = Dest->Duration;
 	ilCloseImage(Dest);
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index b6efaf8..42791df 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -13,6 +13,7 @@
 
 #include "ilu_internal.h"
 #include "ilu_states.h"
+#include <limits.h>
 
 
 ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
@@ -23,12 +24,20 @@ ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
 	}
 
 	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	if (iluCurImage->Width * (ILdouble)XDim > INT_MAX || iluCurImage->Height * (ILdouble)YDim > INT_MAX ||
+		iluCurImage->Depth * (ILdouble)ZDim > INT_MAX) {
+		ilSetError(ILU_INVALID_PARAM);
+		return IL_FALSE;
+	}
 	return iluScale((ILuint)(iluCurImage->Width * XDim), (ILuint)(iluCurImage->Height * YDim),
 					(ILuint)(iluCurImage->Depth * ZDim));
 }
 
 
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width);
 ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
 ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
 
@@ -91,6 +100,8 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 						iluCurImage->Origin = Origin;
 						ilCloseImage(Temp);
 					}
+					else
+						return IL_FALSE;
 				}
 				else if (iluCurImage->Height > Height) // shrink height first
 				{
@@ -104,6 +115,8 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 						iluCurImage->Origin = Origin;
 						ilCloseImage(Temp);
 					}
+					else
+						return IL_FALSE;
 				}
 
 				return (ILboolean)iluScaleAdvanced(Width, Height, iluFilter);
@@ -144,7 +157,11 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 	if (Format == IL_COLOUR_INDEX) {
 		ilSetCurImage(Image);
 		PalType = Image->Pal.PalType;
-		ToScale = iConvertImage(iluCurImage, ilGetPalBaseType(Image->Pal.PalType), iluCurImage->Type);
+		ToScale = iConvertImage(Image, ilGetPalBaseType(Image->Pal.PalType), Image->Type);
+		if (ToScale == NULL) {
+			ilSetCurImage(CurImage);
+			return NULL;
+		}
 	}
 	else {
 		ToScale = Image;
@@ -152,6 +169,12 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 
 	// So we don't replicate this 3 times (one in each iluScalexD_() function.
 	Scaled = (ILimage*)icalloc(1, sizeof(ILimage));
+	if (Scaled == NULL) {
+		if (ToScale != Image)
+			ilCloseImage(ToScale);
+		ilSetCurImage(CurImage);
+		return NULL;
+	}
 	if (ilCopyImageAttr(Scaled, ToScale) == IL_FALSE) {
 		ilCloseImage(Scaled);
 		if (ToScale != Image)
@@ -167,9 +190,6 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 		return NULL;
 	}
 	
-	if (Height <= 1 && Image->Height <= 1) {
-		iluScale1D_(ToScale, Scaled, Width);
-	}
 	if (Depth <= 1 && Image->Depth <= 1) {
 		iluScale2D_(ToScale, Scaled, Width, Height);
 	}
@@ -186,122 +206,3 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 
 	return Scaled;
 }
-
-
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width)
-{
-	ILuint		x1, x2;
-	ILuint		NewX1, NewX2, NewX3, x, c;
-	ILdouble	ScaleX, t1, t2, f;
-	ILushort	*ShortPtr, *SShortPtr;
-	ILuint		*IntPtr, *SIntPtr;
-
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	ScaleX = (ILdouble)Width / Image->Width;
-
-	ShortPtr = (ILushort*)Image->Data;
-	SShortPtr = (ILushort*)Scaled->Data;
-	IntPtr = (ILuint*)Image->Data;
-	SIntPtr = (ILuint*)Scaled->Data;
-
-	if (iluFilter == ILU_NEAREST) {
-		switch (Image->Bpc)
-		{
-			case 1:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewX1 + c] = Image->Data[NewX2 + c];
-					}
-				}
-				break;
-			case 2:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewX1 + c] = ShortPtr[NewX2 + c];
-					}
-				}
-				break;
-			case 4:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewX1 + c] = IntPtr[NewX2 + c];
-					}
-				}
-				break;
-		}
-	}
-	else {  // IL_LINEAR or IL_BILINEAR
-		switch (Image->Bpc)
-		{
-			case 1:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewX1 + c];
-						x2 = Image->Data[NewX2 + c];
-
-						Scaled->Data[NewX3 + c] = (ILubyte)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 2:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewX1 + c];
-						x2 = ShortPtr[NewX2 + c];
-
-						SShortPtr[NewX3 + c] = (ILushort)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 4:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewX1 + c];
-						x2 = IntPtr[NewX2 + c];
-
-						SIntPtr[NewX3 + c] = (ILuint)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-		}
-	}
-
-	return Scaled;
-}
diff --git a/DevIL/src-ILU/src/ilu_scale2d.cpp b/DevIL/src-ILU/src/ilu_scale2d.cpp
index 98a5158..7e8970a 100644
--- a/DevIL/src-ILU/src/ilu_scale2d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale2d.cpp
@@ -24,12 +24,11 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 
 static ILuint	x1, x2;
 static ILuint	NewY1, NewY2, NewX1, NewX2, Size, x, y, c;
-static ILdouble	ScaleX, ScaleY, t1, t2, t3, t4, f, ft, NewX;
-static ILdouble	Table[2][4];  // Assumes we don't have larger than 32-bit images.
+static ILdouble	ScaleX, ScaleY, t1, t2, t4, f, ft;
 static ILuint	ImgBps, SclBps;
 static ILushort	*ShortPtr, *SShortPtr;
 static ILuint	*IntPtr, *SIntPtr;
-static ILfloat	*FloatPtr, *SFloatPtr;
+static ILdouble	*DoublePtr, *SDoublePtr;
 
 
 
@@ -40,8 +39,8 @@ ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 		return IL_FALSE;
 	}
 
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
+	ScaleX = (ILdouble)Width / Image->Width;
+	ScaleY = (ILdouble)Height / Image->Height;
 
 	if (iluFilter == ILU_NEAREST)
 		return iluScale2DNear_(Image, Scaled, Width, Height);
@@ -107,18 +106,43 @@ ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint H
 				}
 			}
 			break;
+
+		case 8:
+			DoublePtr = (ILdouble*)Image->Data;
+			SDoublePtr = (ILdouble*)Scaled->Data;
+			for (y = 0; y < Height; y++) {
+				NewY1 = y * SclBps;
+				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
+				for (x = 0; x < Width; x++) {
+					NewX1 = x * Scaled->Bpp;
+					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
+					for (c = 0; c < Scaled->Bpp; c++) {
+						SDoublePtr[NewY1 + NewX1 + c] = DoublePtr[NewY2 + NewX2 + c];
+					}
+				}
+			}
+			break;
 	}
 
 	return Scaled;
 }
 
 
+// The integer types can be interpolated as they are, the others not.
+static ILubyte iScaleBpc(ILimage *Image)
+{
+	if (Image->Type == IL_FLOAT || Image->Type == IL_DOUBLE || Image->Type == IL_HALF)
+		return 0;
+	return Image->Bpc;
+}
+
+
 ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
 	ImgBps = Image->Bps / Image->Bpc;
 	SclBps = Scaled->Bps / Scaled->Bpc;
 
-	switch (Image->Bpc)
+	switch (iScaleBpc(Image))
 	{
 		case 1:
 			for (y = 0; y < Height; y++) {
@@ -131,6 +155,8 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 					f = (1.0 - cos(ft)) * .5;
 					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
 					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
+					if (NewX2 >= Image->Width * Image->Bpp)
+						NewX2 = NewX1;
 
 					Size = y * SclBps + x * Scaled->Bpp;
 					for (c = 0; c < Scaled->Bpp; c++) {
@@ -155,6 +181,8 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 					f = (1.0 - cos(ft)) * .5;
 					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
 					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
+					if (NewX2 >= Image->Width * Image->Bpp)
+						NewX2 = NewX1;
 
 					Size = y * SclBps + x * Scaled->Bpp;
 					for (c = 0; c < Scaled->Bpp; c++) {
@@ -179,6 +207,8 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 					f = (1.0 - cos(ft)) * .5;
 					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
 					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
+					if (NewX2 >= Image->Width * Image->Bpp)
+						NewX2 = NewX1;
 
 					Size = y * SclBps + x * Scaled->Bpp;
 					for (c = 0; c < Scaled->Bpp; c++) {
@@ -189,6 +219,30 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 				}
 			}
 			break;
+
+		default:
+			for (y = 0; y < Height; y++) {
+				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
+				for (x = 0; x < Width; x++) {
+					t1 = x / (ILdouble)Width;
+					t4 = t1 * Width;
+					t2 = t4 - (ILuint)(t4);
+					ft = t2 * IL_PI;
+					f = (1.0 - cos(ft)) * .5;
+					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
+					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
+					if (NewX2 >= Image->Width * Image->Bpp)
+						NewX2 = NewX1;
+
+					Size = y * SclBps + x * Scaled->Bpp;
+					for (c = 0; c < Scaled->Bpp; c++) {
+						iPutChannel(Scaled->Data, Scaled->Type, Size + c,
+							(1.0 - f) * iGetChannel(Image->Data, Image->Type, NewY1 + NewX1 + c) +
+							f * iGetChannel(Image->Data, Image->Type, NewY1 + NewX2 + c));
+					}
+				}
+			}
+			break;
 	}
 
 	return Scaled;
@@ -199,9 +253,9 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 //  http://www.gamedev.net/reference/articles/article669.asp.
 ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	ILfloat	ul, ll, ur, lr;
-	ILfloat	FracX, FracY;
-	ILfloat	SrcX, SrcY;
+	ILdouble	ul, ll, ur, lr;
+	ILdouble	FracX, FracY;
+	ILdouble	SrcX, SrcY;
 	ILuint	iSrcX, iSrcY, iSrcXPlus1, iSrcYPlus1, ulOff, llOff, urOff, lrOff;
 
 	ImgBps = Image->Bps / Image->Bpc;
@@ -213,14 +267,14 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 			for (y = 0; y < Height; y++) {
 				for (x = 0; x < Width; x++) {
 					// Calculate where we want to choose pixels from in our source image.
-					SrcX = (ILfloat)x / (ILfloat)ScaleX;
-					SrcY = (ILfloat)y / (ILfloat)ScaleY;
+					SrcX = x / ScaleX;
+					SrcY = y / ScaleY;
 					// Integer part of SrcX and SrcY
 					iSrcX = (ILuint)floor(SrcX);
 					iSrcY = (ILuint)floor(SrcY);
 					// Fractional part of SrcX and SrcY
-					FracX = SrcX - (ILfloat)(iSrcX);
-					FracY = SrcY - (ILfloat)(iSrcY);
+					FracX = SrcX - iSrcX;
+					FracY = SrcY - iSrcY;
 
 					// We do not want to go past the right edge of the image or past the last line in the image,
 					//  so this takes care of that.  Normally, iSrcXPlus1 is iSrcX + 1, but if this is past the
@@ -235,9 +289,9 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 						iSrcYPlus1 = iSrcY;
 
 					// Find out how much we want each of the four pixels contributing to the final values.
-					ul = (1.0f - FracX) * (1.0f - FracY);
-					ll = (1.0f - FracX) * FracY;
-					ur = FracX * (1.0f - FracY);
+					ul = (1.0 - FracX) * (1.0 - FracY);
+					ll = (1.0 - FracX) * FracY;
+					ur = FracX * (1.0 - FracY);
 					lr = FracX * FracY;
 
 					for (c = 0; c < Scaled->Bpp; c++) {
@@ -249,229 +303,57 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 
 						// ...and then we do the actual interpolation here.
 						Scaled->Data[y * Scaled->Bps + x * Scaled->Bpp + c] = (ILubyte)(
-							ul * Image->Data[ulOff] + ll * Image->Data[llOff] + ur * Image->Data[urOff] + lr * Image->Data[lrOff]);
+							ul * Image->Data[ulOff] + ll * Image->Data[llOff] + ur * Image->Data[urOff] + lr * Image->Data[lrOff] + 0.5);
 					}
 				}
 			}
 			break;
 
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			Height--;  // Only use regular Height once in the following loop.
+		default:
 			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					t3 = (1.0 - t2);
-					t4 = t1 * NewX;
-					NewX1 = (ILuint)(t4) * Image->Bpp;
-					NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Table[0][c] = t3 * ShortPtr[NewY1 + NewX1 + c] +
-							t2 * ShortPtr[NewY1 + NewX2 + c];
-
-						Table[1][c] = t3 * ShortPtr[NewY2 + NewX1 + c] +
-							t2 * ShortPtr[NewY2 + NewX2 + c];
-					}
-
-					// Linearly interpolate between the table values.
-					t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-					t3 = (1.0 - t1);
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[Size + c] =
-							(ILushort)(t3 * Table[0][c] + t1 * Table[1][c]);
-					}
-				}
-			}
-
-			// Calculate the last row.
-			NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-			for (x = 0; x < Width; x++) {
-				NewX = Width / ScaleX;
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				ft = (t4 - (ILuint)(t4)) * IL_PI;
-				f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-				NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-				NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-				Size = Height * SclBps + x * Image->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					SShortPtr[Size + c] = (ILushort)((1.0 - f) * ShortPtr[NewY1 + NewX1 + c] +
-						f * ShortPtr[NewY1 + NewX2 + c]);
-				}
-			}
-			break;
-
-		case 4:
-			if (Image->Type != IL_FLOAT) {
-				IntPtr = (ILuint*)Image->Data;
-				SIntPtr = (ILuint*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX = Width / ScaleX;
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						t3 = (1.0 - t2);
-						t4 = t1 * NewX;
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Table[0][c] = t3 * IntPtr[NewY1 + NewX1 + c] +
-								t2 * IntPtr[NewY1 + NewX2 + c];
-
-							Table[1][c] = t3 * IntPtr[NewY2 + NewX1 + c] +
-								t2 * IntPtr[NewY2 + NewX2 + c];
-						}
-
-						// Linearly interpolate between the table values.
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-						t3 = (1.0 - t1);
-						Size = y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[Size + c] =
-								(ILuint)(t3 * Table[0][c] + t1 * Table[1][c]);
-						}
-					}
-				}
-
-				// Calculate the last row.
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-					Size = Height * SclBps + x * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * IntPtr[NewY1 + NewX1 + c] +
-							f * IntPtr[NewY1 + NewX2 + c]);
-					}
-				}
-
-			}
-
-			else {  // IL_FLOAT
-				FloatPtr = (ILfloat*)Image->Data;
-				SFloatPtr = (ILfloat*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-
-				for (y = 0; y < Height; y++) {
-
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-
-					for (x = 0; x < Width; x++) {
-
-						NewX = Width / ScaleX;
-
-						t1 = x / (ILdouble)Width;
-
-						t4 = t1 * Width;
-
-						t2 = t4 - (ILuint)(t4);
-
-						t3 = (1.0 - t2);
-
-						t4 = t1 * NewX;
-
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							Table[0][c] = t3 * FloatPtr[NewY1 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY1 + NewX2 + c];
-
-
-
-							Table[1][c] = t3 * FloatPtr[NewY2 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY2 + NewX2 + c];
-
-						}
-
-
-
-						// Linearly interpolate between the table values.
-
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-
-						t3 = (1.0 - t1);
-
-						Size = y * SclBps + x * Scaled->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							SFloatPtr[Size + c] =
-
-								(ILfloat)(t3 * Table[0][c] + t1 * Table[1][c]);
-
-						}
-
-					}
-
-				}
-
-
-
-				// Calculate the last row.
-
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-
 				for (x = 0; x < Width; x++) {
+					// Calculate where we want to choose pixels from in our source image.
+					SrcX = x / ScaleX;
+					SrcY = y / ScaleY;
+					// Integer part of SrcX and SrcY
+					iSrcX = (ILuint)floor(SrcX);
+					iSrcY = (ILuint)floor(SrcY);
+					// Fractional part of SrcX and SrcY
+					FracX = SrcX - iSrcX;
+					FracY = SrcY - iSrcY;
 
-					NewX = Width / ScaleX;
-
-					t1 = x / (ILdouble)Width;
-
-					t4 = t1 * Width;
-
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-
+					// We do not want to go past the right edge of the image or past the last line in the image,
+					//  so this takes care of that.  Normally, iSrcXPlus1 is iSrcX + 1, but if this is past the
+					//  right side, we have to bring it back to iSrcX.  The same goes for iSrcYPlus1.
+					if (iSrcX < Image->Width - 1)
+						iSrcXPlus1 = iSrcX + 1;
+					else 
+						iSrcXPlus1 = iSrcX;
+					if (iSrcY < Image->Height - 1)
+						iSrcYPlus1 = iSrcY + 1;
+					else
+						iSrcYPlus1 = iSrcY;
 
-					Size = Height * SclBps + x * Image->Bpp;
+					// Find out how much we want each of the four pixels contributing to the final values.
+					ul = (1.0 - FracX) * (1.0 - FracY);
+					ll = (1.0 - FracX) * FracY;
+					ur = FracX * (1.0 - FracY);
+					lr = FracX * FracY;
 
 					for (c = 0; c < Scaled->Bpp; c++) {
+						// We just calculate the offsets for each pixel here...
+						ulOff = iSrcY * ImgBps + iSrcX * Image->Bpp + c;
+						llOff = iSrcYPlus1 * ImgBps + iSrcX * Image->Bpp + c;
+						urOff = iSrcY * ImgBps + iSrcXPlus1 * Image->Bpp + c;
+						lrOff = iSrcYPlus1 * ImgBps + iSrcXPlus1 * Image->Bpp + c;
 
-						SFloatPtr[Size + c] = (ILfloat)((1.0 - f) * FloatPtr[NewY1 + NewX1 + c] +
-
-							f * FloatPtr[NewY1 + NewX2 + c]);
-
+						// ...and then we do the actual interpolation here.
+						iPutChannel(Scaled->Data, Scaled->Type, y * SclBps + x * Scaled->Bpp + c,
+							ul * iGetChannel(Image->Data, Image->Type, ulOff) + ll * iGetChannel(Image->Data, Image->Type, llOff) +
+							ur * iGetChannel(Image->Data, Image->Type, urOff) + lr * iGetChannel(Image->Data, Image->Type, lrOff));
 					}
-
 				}
-
 			}
-
 			break;
 	}
 
diff --git a/DevIL/src-ILU/src/ilu_scale3d.cpp b/DevIL/src-ILU/src/ilu_scale3d.cpp
index 00b08e0..5964141 100644
--- a/DevIL/src-ILU/src/ilu_scale3d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale3d.cpp
@@ -28,6 +28,7 @@ static ILdouble	ScaleX, ScaleY, ScaleZ, x1, x2, t1, t2, t4, f, ft;
 static ILuint		ImgBps, SclBps, ImgPlane, SclPlane;
 static ILushort	*ShortPtr, *SShortPtr;
 static ILuint		*IntPtr, *SIntPtr;
+static ILdouble	*DoublePtr, *SDoublePtr;
 
 
 ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
@@ -37,9 +38,9 @@ ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 		return IL_FALSE;
 	}
 
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
-	ScaleZ = (ILfloat)Depth / Image->Depth;
+	ScaleX = (ILdouble)Width / Image->Width;
+	ScaleY = (ILdouble)Height / Image->Height;
+	ScaleZ = (ILdouble)Depth / Image->Depth;
 
 	//if (iluFilter == ILU_NEAREST)
 		return iluScale3DNear_(Image, Scaled, Width, Height, Depth);
@@ -120,6 +121,27 @@ ILimage *iluScale3DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint H
 				}
 			}
 			break;
+
+		case 8:
+			DoublePtr = (ILdouble*)Image->Data;
+			SDoublePtr = (ILdouble*)Scaled->Data;
+			for (z = 0; z < Depth; z++) {
+				NewZ1 = z * SclPlane;
+				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
+				for (y = 0; y < Height; y++) {
+					NewY1 = y * SclBps;
+					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
+					for (x = 0; x < Width; x++) {
+						NewX1 = x * Scaled->Bpp;
+						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
+						for (c = 0; c < Scaled->Bpp; c++) {
+							SDoublePtr[NewZ1 + NewY1 + NewX1 + c] =
+								DoublePtr[NewZ2 + NewY2 + NewX2 + c];
+						}
+					}
+				}
+			}
+			break;
 	}
 
 	return Scaled;
-- 
2.43.0


From e2883ff4070c5fb0388423d2b42522a045ccbd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 062/185] fix: cropping and enlarging the canvas read outside
 of the image, mixed up offsets and sizes, mishandled wide types and lost the
 palette

---
 DevIL/src-ILU/src/ilu_manip.cpp | 88 ++++++++++++---------------------
 1 file changed, 32 insertions(+), 56 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 856b8c1..82633d6 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -5,49 +5,22 @@
 #include <limits.h>
 
 
-ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
-	ILuint	x, y, c, OldBps;
-	ILubyte	*Data;
-	ILenum	Origin;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
+// Gives the current image new dimensions like ilTexImage, but keeps what belongs to it
+//  as a whole.
+static ILboolean iluNewSize(ILuint Width, ILuint Height, ILuint Depth)
+{
+	ILpal	Pal = iluCurImage->Pal;
+	ILenum	Origin = iluCurImage->Origin;
+	ILuint	Duration = iluCurImage->Duration;
 
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
-
-	OldBps = iluCurImage->Bps;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, 1, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width, Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		free(Data);
+	iluCurImage->Pal.Palette = NULL;
+	if (!ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
+		iluCurImage->Pal = Pal;
 		return IL_FALSE;
 	}
+	iluCurImage->Pal = Pal;
 	iluCurImage->Origin = Origin;
-
-	// @TODO:  Optimize!  (Especially XOff * iluCurImage->Bpp...get rid of it!)
-	for (y = 0; y < iluCurImage->Height; y++) {
-		for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-			for (c = 0; c < iluCurImage->Bpp; c++) {
-				iluCurImage->Data[y * iluCurImage->Bps + x + c] = 
-					Data[(y + YOff) * OldBps + x + XOff * iluCurImage->Bpp + c];
-			}
-		}
-	}
-
-	ifree(Data);
-
+	iluCurImage->Duration = Duration;
 	return IL_TRUE;
 }
 
@@ -56,7 +29,6 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 {
 	ILuint	x, y, z, c, OldBps, OldPlane;
 	ILubyte	*Data;
-	ILenum	Origin;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -64,8 +36,9 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth) {
+	if (Width == 0 || Height == 0 || Depth == 0 ||
+		Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth ||
+		XOff > iluCurImage->Width - Width || YOff > iluCurImage->Height - Height || ZOff > iluCurImage->Depth - Depth) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -77,19 +50,19 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 
 	OldBps = iluCurImage->Bps;
 	OldPlane = iluCurImage->SizeOfPlane;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width - XOff, Height - YOff, Depth - ZOff, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
+	if (!iluNewSize(Width, Height, Depth)) {
 		ifree(Data);
+		return IL_FALSE;
 	}
-	iluCurImage->Origin = Origin;
+	XOff *= iluCurImage->Bpp * iluCurImage->Bpc;
 
 	for (z = 0; z < iluCurImage->Depth; z++) {
 		for (y = 0; y < iluCurImage->Height; y++) {
 			for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
 				for (c = 0; c < iluCurImage->Bpp; c++) {
 					iluCurImage->Data[z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps + x + c] = 
-						Data[(z + ZOff) * OldPlane + (y + YOff) * OldBps + (x + XOff) + c];
+						Data[(z + ZOff) * OldPlane + (y + YOff) * OldBps + x + XOff + c];
 				}
 			}
 		}
@@ -103,8 +76,9 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 
 ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
 {
-	if (ZOff <= 1)
-		return iluCrop2D(XOff, YOff, Width, Height);
+	iluCurImage = ilGetCurImage();
+	if (iluCurImage != NULL && iluCurImage->Depth == 1 && ZOff <= 1)  // The third dimension is ignored then.
+		return iluCrop3D(XOff, YOff, 0, Width, Height, 1);
 	return iluCrop3D(XOff, YOff, ZOff, Width, Height, Depth);
 }
 
@@ -114,7 +88,6 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 {
 	ILubyte	*Data/*, Clear[4]*/;
 	ILuint	x, y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
-	ILenum	Origin;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -185,7 +158,7 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 		}
 	}
 
-	AddX *= iluCurImage->Bpp;
+	AddX *= iluCurImage->Bpp * iluCurImage->Bpc;
 
 	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
 	if (Data == NULL) {
@@ -197,13 +170,16 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 	OldBps   = iluCurImage->Bps;
 	OldH     = iluCurImage->Height;
 	OldD     = iluCurImage->Depth;
-	Origin   = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, OldD, iluCurImage->Format, iluCurImage->Type, Data);
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
 
-	ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
-	iluCurImage->Origin = Origin;
+	if (!iluNewSize(Width, Height, Depth)) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 
-	ilClearImage();
+	// Would replace the palette of an indexed image.
+	if (iluCurImage->Format != IL_COLOUR_INDEX)
+		ilClearImage();
 	/*ilGetClear(Clear);
 	if (iluCurImage->Bpp == 1) {
 		memset(iluCurImage->Data, Clear[3], iluCurImage->SizeOfData);
-- 
2.43.0


From 08a230ead4be2cf0cb7a285264c18ae4ef3f9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 063/185] fix: inverting the alpha skipped pixels and half
 floats

---
 DevIL/src-ILU/src/ilu_manip.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 82633d6..73e409a 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -272,35 +272,40 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 		case IL_BYTE:
 		case IL_UNSIGNED_BYTE:
 			Data += (Bpp - 1);
-			for( i = Bpp - 1; i < NumPix; i++, Data += Bpp )
+			for( i = 0; i < NumPix; i++, Data += Bpp )
 				*(Data) = ~*(Data);
 			break;
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
 			ShortPtr = ((ILushort*)Data) + Bpp-1;	
-			for (i = Bpp - 1; i < NumPix; i++, ShortPtr += Bpp)
+			for (i = 0; i < NumPix; i++, ShortPtr += Bpp)
 				*(ShortPtr) = ~*(ShortPtr);
 			break;
 
 		case IL_INT:
 		case IL_UNSIGNED_INT:
 			IntPtr = ((ILuint*)Data) + Bpp-1;
-			for (i = Bpp - 1; i < NumPix; i++, IntPtr += Bpp)
+			for (i = 0; i < NumPix; i++, IntPtr += Bpp)
 				*(IntPtr) = ~*(IntPtr);
 			break;
 
 		case IL_FLOAT:
 			FltPtr = ((ILfloat*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, FltPtr += Bpp)
+			for (i = 0; i < NumPix; i++, FltPtr += Bpp)
 				*(FltPtr) = 1.0f - *(FltPtr);
 			break;
 
 		case IL_DOUBLE:
 			DblPtr = ((ILdouble*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, DblPtr += Bpp)
+			for (i = 0; i < NumPix; i++, DblPtr += Bpp)
 				*(DblPtr) = 1.0f - *(DblPtr);
 			break;
+
+		case IL_HALF:
+			for (i = Bpp - 1; i < NumPix * Bpp; i += Bpp)
+				iPutChannel(Data, IL_HALF, i, 1.0 - iGetChannel(Data, IL_HALF, i));
+			break;
 	}
 
 	return IL_TRUE;
-- 
2.43.0


From e0f283034e0e4f83d510cbd26a1fd202d83b8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 064/185] fix: negative of float images was not the inverse and
 a region ran over the palette

---
 DevIL/src-ILU/src/ilu_manip.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 73e409a..d34dc35 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -340,13 +340,25 @@ ILboolean ILAPIENTRY iluNegative()
 	}
 
 	RegionMask = iScanFill();
+	if (RegionMask != NULL && iluCurImage->Format == IL_COLOUR_INDEX) {
+		// The palette is shared with what is outside of the region.
+		ifree(RegionMask);
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	
 	// @TODO:  Optimize this some.
 
 	NumPix = i / iluCurImage->Bpc;
 	Bpp = iluCurImage->Bpp;
 
-	if (RegionMask) {
+	if (iluCurImage->Type == IL_FLOAT || iluCurImage->Type == IL_DOUBLE || iluCurImage->Type == IL_HALF) {
+		for (j = 0; j < NumPix; j++) {
+			if (RegionMask == NULL || RegionMask[j / Bpp])
+				iPutChannel(Data, iluCurImage->Type, j, 1.0 - iGetChannel(Data, iluCurImage->Type, j));
+		}
+	}
+	else if (RegionMask) {
 		switch (iluCurImage->Bpc)
 		{
 			case 1:
-- 
2.43.0


From c280e9a26357a5506befa5d05a967f86eed806d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 065/185] fix: wave moved more than a row, ignored wide types
 and other slices

---
 DevIL/src-ILU/src/ilu_manip.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index d34dc35..2d8db0f 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -428,7 +428,7 @@ ILboolean ILAPIENTRY iluNegative()
 ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 {
 	ILint	Delta;
-	ILuint	y;
+	ILuint	y, Bpp;
 	ILubyte	*DataPtr, *TempBuff;
 
 	iluCurImage = ilGetCurImage();
@@ -442,23 +442,26 @@ ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 		return IL_FALSE;
 	}
 
-	for (y = 0; y < iluCurImage->Height; y++) {
+	Bpp = iluCurImage->Bpp * iluCurImage->Bpc;
+	for (y = 0; y < iluCurImage->Height * iluCurImage->Depth; y++) {
 		Delta = (ILint)
-			(30 * sin((10 * Angle + y) * IL_DEGCONV) +
-			 15 * sin(( 7 * Angle + 3 * y) * IL_DEGCONV));
+			(30 * sin((10 * Angle + y % iluCurImage->Height) * IL_DEGCONV) +
+			 15 * sin(( 7 * Angle + 3 * (y % iluCurImage->Height)) * IL_DEGCONV));
+
+		Delta %= (ILint)iluCurImage->Width;
 
 		DataPtr = iluCurImage->Data + y * iluCurImage->Bps;
 
 		if (Delta < 0) {
 			Delta = -Delta;
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * Delta);
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * Delta, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), TempBuff, iluCurImage->Bpp * Delta);
+			memcpy(TempBuff, DataPtr, Bpp * Delta);
+			memmove(DataPtr, DataPtr + Bpp * Delta, Bpp * (iluCurImage->Width - Delta));
+			memcpy(DataPtr + Bpp * (iluCurImage->Width - Delta), TempBuff, Bpp * Delta);
 		}
 		else if (Delta > 0) {
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), iluCurImage->Bpp * Delta);
-			memcpy(DataPtr + iluCurImage->Bpp * Delta, TempBuff, iluCurImage->Bpp * (iluCurImage->Width - Delta));
+			memcpy(TempBuff, DataPtr, Bpp * (iluCurImage->Width - Delta));
+			memmove(DataPtr, DataPtr + Bpp * (iluCurImage->Width - Delta), Bpp * Delta);
+			memcpy(DataPtr + Bpp * Delta, TempBuff, Bpp * (iluCurImage->Width - Delta));
 		}
 	}
 
-- 
2.43.0


From 36f619d377b5bc66cec38a086e899398a3c5714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 066/185] fix: iluSwapColours looked at a stale current image

---
 DevIL/src-ILU/src/ilu_manip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 2d8db0f..b5590f4 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -483,8 +483,8 @@ ILboolean ILAPIENTRY iluSwapColours() {
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Bpp == 1) {
-		if (ilGetBppPal(iluCurImage->Pal.PalType) == 0 || iluCurImage->Format != IL_COLOUR_INDEX) {
+	if (img->Bpp == 1) {
+		if (ilGetBppPal(img->Pal.PalType) == 0 || img->Format != IL_COLOUR_INDEX) {
 			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
 			return IL_FALSE;
 		}
-- 
2.43.0


From 53cf56f91e10321efc291464c8bd8a0e13f39fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 067/185] fix: iluColoursUsed ran out of its heap and confused
 wide or two-channel pixels

---
 DevIL/src-ILU/src/ilu_manip.cpp | 111 ++++++--------------------------
 1 file changed, 19 insertions(+), 92 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index b5590f4..cfd235e 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -524,21 +524,18 @@ ILboolean ILAPIENTRY iluSwapColours() {
 }
 
 
-typedef struct BUCKET { ILubyte Colours[4];  struct BUCKET *Next; } BUCKET;
+static ILuint CompareSize;
 
-ILuint ILAPIENTRY iluColoursUsed()
+static int iComparePixels(const void *Pixel1, const void *Pixel2)
 {
-	ILuint i, c, Bpp, ColVal, SizeData, BucketPos = 0, NumCols = 0;
-	BUCKET Buckets[8192], *Temp;
-	ILubyte ColTemp[4];
-	ILboolean Matched;
-	BUCKET *Heap[9];
-	ILuint HeapPos = 0, HeapPtr = 0, HeapSize;
+	return memcmp(Pixel1, Pixel2, CompareSize);
+}
 
-	imemclear(Buckets, sizeof(BUCKET) * 8192);
-	for (c = 0; c < 9; c++) {
-		Heap[c] = 0;
-	}
+
+ILuint ILAPIENTRY iluColoursUsed()
+{
+	ILuint	i, NumCols = 1;
+	ILubyte	*Pixels;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -546,92 +543,22 @@ ILuint ILAPIENTRY iluColoursUsed()
 		return 0;
 	}
 
-	Bpp = iluCurImage->Bpp;
-	SizeData = iluCurImage->SizeOfData;
-
-	// Create our miniature memory heap.
-	// I have determined that the average number of colours versus
-	//	the number of pixels is about a 1:8 ratio, so divide by 8.
-	HeapSize = IL_MAX(1, iluCurImage->SizeOfData / iluCurImage->Bpp / 8);
-	Heap[0] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-	if (Heap[0] == NULL)
-		return IL_FALSE;
-
-	for (i = 0; i < SizeData; i += Bpp) {
-		*(ILuint*)ColTemp = 0;
-		/*for (c = 0; c < Bpp; c++) {
-			ColTemp[c] = iluCurImage->Data[i + c];
-		}*/
-		ColTemp[0] = iluCurImage->Data[i];
-		if (Bpp > 1) {
-			ColTemp[1] = iluCurImage->Data[i + 1];
-			ColTemp[2] = iluCurImage->Data[i + 2];
-		}
-		if (Bpp > 3)
-			ColTemp[3] = iluCurImage->Data[i + 3];
-
-		BucketPos = *(ILuint*)ColTemp % 8192;
+	Pixels = (ILubyte*)ialloc(iluCurImage->SizeOfData);
+	if (Pixels == NULL)
+		return 0;
+	memcpy(Pixels, iluCurImage->Data, iluCurImage->SizeOfData);
 
-		// Add to hash table
-		if (Buckets[BucketPos].Next == NULL) {
+	// Bring equal pixels together, then count the changes.
+	CompareSize = iluCurImage->Bpp * iluCurImage->Bpc;
+	qsort(Pixels, iluCurImage->SizeOfData / CompareSize, CompareSize, iComparePixels);
+	for (i = CompareSize; i < iluCurImage->SizeOfData; i += CompareSize) {
+		if (memcmp(Pixels + i - CompareSize, Pixels + i, CompareSize))
 			NumCols++;
-			//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-			Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-			if (HeapPtr >= HeapSize) {
-				Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-				if (Heap[HeapPos] == NULL)
-					goto alloc_error;
-				HeapPtr = 0;
-			}
-			*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-			Buckets[BucketPos].Next->Next = NULL;
-		}
-		else {
-			Matched = IL_FALSE;
-			Temp = Buckets[BucketPos].Next;
-
-			ColVal = *(ILuint*)ColTemp;
-			while (Temp->Next != NULL) {
-				if (ColVal == *(ILuint*)Temp->Colours) {
-					Matched = IL_TRUE;
-					break;
-				}
-				Temp = Temp->Next;
-			}
-			if (!Matched) {
-				if (ColVal != *(ILuint*)Temp->Colours) {  // Check against last entry
-					NumCols++;
-					Temp = Buckets[BucketPos].Next;
-					//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-					Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-					if (HeapPtr >= HeapSize) {
-						Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-						if (Heap[HeapPos] == NULL)
-							goto alloc_error;
-						HeapPtr = 0;
-					}
-					Buckets[BucketPos].Next->Next = Temp;
-					*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-				}
-			}
-		}
 	}
 
-	// Delete our mini heap.
-	for (i = 0; i < 9; i++) {
-		if (Heap[i] == NULL)
-			break;
-		ifree(Heap[i]);
-	}
+	ifree(Pixels);
 
 	return NumCols;
-
-alloc_error:
-	for (i = 0; i < 9; i++) {
-		ifree(Heap[i]);
-	}
-
-	return 0;
 }
 
 
-- 
2.43.0


From 6887d601e6efcca6beac5299f535a2d4a1d64476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 068/185] fix: iluCompareImage lost the selected sub-image

---
 DevIL/src-ILU/src/ilu_manip.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index cfd235e..f001c01 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -571,15 +571,12 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 	iluCurImage = ilGetCurImage();
 	OrigName = ilGetCurName();
 
-	// Same image, so return true.
-	if (ilGetCurName() == Comp)
-		return IL_TRUE;
-
 	if (iluCurImage == NULL || ilIsImage(Comp) == IL_FALSE) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return 0;
 	}
 
+	// Binding also selects the first image of a name, so the current one is restored too.
 	ilBindImage(Comp);
     Original = ilGetCurImage();
 
@@ -592,6 +589,7 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 		Original->Type != iluCurImage->Type ||
 		Original->Width != iluCurImage->Width) {
 			ilBindImage(OrigName);
+			ilSetCurImage(iluCurImage);
 			return IL_FALSE;
 	}
 
@@ -603,6 +601,7 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 	}
 
 	ilBindImage(OrigName);
+	ilSetCurImage(iluCurImage);
 	return Same;
 }
 
-- 
2.43.0


From 2000148bf674886caabb5cbf78ec46b59e46a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 069/185] fix: replacing a colour compared the wrong channels
 of BGR images and parts of wide types

---
 DevIL/src-ILU/src/ilu_manip.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index f001c01..22fb918 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -619,6 +619,12 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 		return 0;
 	}
 
+	// @TODO:  Change to work with other types!
+	if (iluCurImage->Bpc > 1) {
+		ilSetError(ILU_INTERNAL_ERROR);
+		return IL_FALSE;
+	}
+
 	ilGetClear(ClearCol, IL_RGBA, IL_UNSIGNED_BYTE);
 	if (Tolerance > 1.0f || Tolerance < -1.0f)
 		Tolerance = 1.0f;  // Clamp it.
@@ -649,9 +655,9 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 			case IL_BGR:
 			case IL_BGRA:
 				for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[0];
+					Dist1 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[0];
 					Dist2 = (ILint)iluCurImage->Data[i+1] - (ILint)ClearCol[1];
-					Dist3 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[2];
+					Dist3 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[2];
 					Distance = (ILint)sqrt((float)(Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3));
 					if (Distance >= -TolVal && Distance <= TolVal) {
 						iluCurImage->Data[i+2] = Red;
-- 
2.43.0


From 6914d95db65b7464bfaad5ee1bd8a94b0b1a17a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 070/185] fix: equalising divided by zero, overflowed and ran
 over the palette of indexed images

---
 DevIL/src-ILU/src/ilu_manip.cpp | 64 +++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 22fb918..ed74969 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -690,15 +690,13 @@ ILboolean ILAPIENTRY iluEqualize() {
 	ILuint	i = 0; // index variable
 	ILuint	j = 0; // index variable
 	ILuint	Sum=0;
-	ILuint	NumPixels, Bpp;
+	ILuint	NumPixels, Bpp, Total;
 	ILint	Intensity;
 	ILfloat	Scale;
 	ILint	IntensityNew;
-	ILimage	*LumImage;
+	ILimage	*LumImage = NULL;
 	ILuint	NewColour[4];
-	ILubyte		*BytePtr;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
+	ILubyte		*BytePtr, *Lum;
 
 	NewColour[0] = NewColour[1] = NewColour[2] = NewColour[3] = 0;
 
@@ -714,11 +712,16 @@ ILboolean ILAPIENTRY iluEqualize() {
 		return IL_FALSE;
 	}
 
+	Total = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (!ilIsValidPal(&iluCurImage->Pal)) {
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
 		NumPixels = iluCurImage->Pal.PalSize / ilGetBppPal(iluCurImage->Pal.PalType);
 		Bpp = ilGetBppPal(iluCurImage->Pal.PalType);
 	} else {
-		NumPixels = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+		NumPixels = Total;
 		Bpp = iluCurImage->Bpp;
 	}
 
@@ -726,11 +729,25 @@ ILboolean ILAPIENTRY iluEqualize() {
 	imemclear(Histogram, 256 * sizeof(ILuint));
 	imemclear(SumHistm,  256 * sizeof(ILuint));
 
-	LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
-	if (LumImage == NULL)
-		return IL_FALSE;
-	for (i = 0; i < NumPixels; i++) {
-		Histogram[LumImage->Data[i]]++;
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		// The palette entries are what gets changed, weighted by their use.
+		Lum = (ILubyte*)ilConvertBuffer(NumPixels * Bpp, ilGetPalBaseType(iluCurImage->Pal.PalType), IL_LUMINANCE,
+			IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, NULL, iluCurImage->Pal.Palette);
+		if (Lum == NULL)
+			return IL_FALSE;
+		for (i = 0; i < Total; i++) {
+			if (iluCurImage->Data[i] < NumPixels)
+				Histogram[Lum[iluCurImage->Data[i]]]++;
+		}
+	}
+	else {
+		LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
+		if (LumImage == NULL)
+			return IL_FALSE;
+		Lum = LumImage->Data;
+		for (i = 0; i < NumPixels; i++) {
+			Histogram[Lum[i]]++;
+		}
 	}
 
 	// Calculate normalized Sum of Histogram.
@@ -738,33 +755,31 @@ ILboolean ILAPIENTRY iluEqualize() {
 		for (j = 0; j < i; j++)
 			Sum += Histogram[j];
 
-		SumHistm[i] = (Sum << 8) / NumPixels;
+		SumHistm[i] = (ILuint)(Sum * 256.0 / Total);
 		Sum = 0;
 	}
 
 
 	BytePtr = (iluCurImage->Format == IL_COLOUR_INDEX) ? iluCurImage->Pal.Palette : iluCurImage->Data;
-	ShortPtr = (ILushort*)iluCurImage->Data;
-	IntPtr = (ILuint*)iluCurImage->Data;
 
 	// Transform image using new SumHistm as a LUT
 	for (i = 0; i < NumPixels; i++) {
-		Intensity = LumImage->Data[i];
+		Intensity = Lum[i];
 
 		// Look up the normalized intensity
 		IntensityNew = (ILint)SumHistm[Intensity];
 
 		// Find out by how much the intensity has been Scaled
-		Scale = (ILfloat)IntensityNew / (ILfloat)Intensity;
+		Scale = Intensity ? (ILfloat)IntensityNew / (ILfloat)Intensity : 0.0f;
 
 		switch (iluCurImage->Bpc)
 		{
 			case 1:
 				// Calculate new pixel(s)
-				NewColour[0] = (ILuint)(BytePtr[i * iluCurImage->Bpp] * Scale);
+				NewColour[0] = (ILuint)(BytePtr[i * Bpp] * Scale);
 				if (Bpp >= 3) {
-					NewColour[1] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 1] * Scale);
-					NewColour[2] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 2] * Scale);
+					NewColour[1] = (ILuint)(BytePtr[i * Bpp + 1] * Scale);
+					NewColour[2] = (ILuint)(BytePtr[i * Bpp + 2] * Scale);
 				}
 
 				// Clamp values
@@ -778,10 +793,10 @@ ILboolean ILAPIENTRY iluEqualize() {
 				}
 
 				// Store pixel(s)
-				BytePtr[i * iluCurImage->Bpp] = (ILubyte)NewColour[0];
+				BytePtr[i * Bpp] = (ILubyte)NewColour[0];
 				if (Bpp >= 3) {
-					BytePtr[i * iluCurImage->Bpp + 1]	= (ILubyte)NewColour[1];
-					BytePtr[i * iluCurImage->Bpp + 2]	= (ILubyte)NewColour[2];
+					BytePtr[i * Bpp + 1]	= (ILubyte)NewColour[1];
+					BytePtr[i * Bpp + 2]	= (ILubyte)NewColour[2];
 				}
 				break;
 
@@ -827,7 +842,10 @@ ILboolean ILAPIENTRY iluEqualize() {
 		}
 	}
 
-	ilCloseImage(LumImage);
+	if (LumImage != NULL)
+		ilCloseImage(LumImage);
+	else
+		ifree(Lum);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From 537871133a3e830706fe199fccac95e6d82d7c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 071/185] fix: iluEqualize2 leaked on images of one colour

---
 DevIL/src-ILU/src/ilu_manip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index ed74969..e7c7160 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -874,7 +874,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	// Start of the Modified Von Kries hypothesis
 
 	ILdouble ChanAvgs[3] = { 0.0, 0.0, 0.0 };
-	ILuint NumPix = iluCurImage->Width * iluCurImage->Height;
+	ILuint NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 	if (NumPix < 1) {
 		ilSetError(IL_INTERNAL_ERROR);
 		return IL_FALSE;
@@ -952,6 +952,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	for (ILuint c = 0; c < 3; c++) {
 		if ((MaxVals[c] - MinVals[c]) < 1.0) {
 			// This is the case if an image is a solid color. The original image is unmodified.
+			ifree(Corrected);
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From de619567f29b0a5c064ba9aa63a7c6d080318963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 072/185] fix: regions freed their points twice, leaked, ran
 outside of the mask, broke at ledges and covered one slice only

---
 DevIL/src-ILU/include/ilu_internal.h |   1 +
 DevIL/src-ILU/src/ilu_filter.cpp     |   6 ++
 DevIL/src-ILU/src/ilu_manip.cpp      |   2 +
 DevIL/src-ILU/src/ilu_noise.cpp      |   2 +
 DevIL/src-ILU/src/ilu_region.cpp     | 136 ++++++++++++++++++---------
 5 files changed, 102 insertions(+), 45 deletions(-)

diff --git a/DevIL/src-ILU/include/ilu_internal.h b/DevIL/src-ILU/include/ilu_internal.h
index d385aea..d8e237e 100644
--- a/DevIL/src-ILU/include/ilu_internal.h
+++ b/DevIL/src-ILU/include/ilu_internal.h
@@ -80,6 +80,7 @@ ILint ilRound(ILfloat Num);
 
 ILuint	iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter);
 ILubyte	*iScanFill(void);
+extern ILboolean iRegionFailed;
 
 
 #endif//INTERNAL_H
diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 19d37d1..0ec04d5 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -31,6 +31,8 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
 
 	RegionMask = iScanFill();
+	if (iRegionFailed)
+		return IL_FALSE;
 
 	switch (iluCurImage->Bpc)
 	{
@@ -203,6 +205,10 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 	}
 
 	RegionMask = iScanFill();
+	if (iRegionFailed) {
+		ifree(Data);
+		return NULL;
+	}
 
 	// Preserve original data.
 	ImgData = Image->Data;
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index e7c7160..34642f7 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -340,6 +340,8 @@ ILboolean ILAPIENTRY iluNegative()
 	}
 
 	RegionMask = iScanFill();
+	if (iRegionFailed)
+		return IL_FALSE;
 	if (RegionMask != NULL && iluCurImage->Format == IL_COLOUR_INDEX) {
 		// The palette is shared with what is outside of the region.
 		ifree(RegionMask);
diff --git a/DevIL/src-ILU/src/ilu_noise.cpp b/DevIL/src-ILU/src/ilu_noise.cpp
index 90375b2..6f0df2e 100644
--- a/DevIL/src-ILU/src/ilu_noise.cpp
+++ b/DevIL/src-ILU/src/ilu_noise.cpp
@@ -34,6 +34,8 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 	}
 
 	RegionMask = iScanFill();
+	if (iRegionFailed)
+		return IL_FALSE;
 
 	// @TODO:  Change this to work correctly without time()!
 	//srand(time(NULL));
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 4824c14..05651a9 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -24,6 +24,7 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 	if (Points == NULL || n == 0) {
 		ifree(RegionPointsi);
 		ifree(RegionPointsf);
+		RegionPointsi = NULL;
 		RegionPointsf = NULL;
 		PointNum = 0;
 		return;
@@ -34,10 +35,12 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 	}
 	ifree(RegionPointsi);
 	ifree(RegionPointsf);
+	RegionPointsi = NULL;
+	PointNum = 0;
 	RegionPointsf = (ILpointf*)ialloc(sizeof(ILpointf) * n);
 	if (RegionPointsf == NULL)
 		return;
-	memcpy(RegionPointsf, Points, sizeof(ILpointi) * n);
+	memcpy(RegionPointsf, Points, sizeof(ILpointf) * n);
 	PointNum = n;
 	return;
 }
@@ -49,6 +52,7 @@ void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 		ifree(RegionPointsi);
 		ifree(RegionPointsf);
 		RegionPointsi = NULL;
+		RegionPointsf = NULL;
 		PointNum = 0;
 		return;
 	}
@@ -58,6 +62,8 @@ void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 	}
 	ifree(RegionPointsi);
 	ifree(RegionPointsf);
+	RegionPointsf = NULL;
+	PointNum = 0;
 	RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * n);
 	if (RegionPointsi == NULL)
 		return;
@@ -124,12 +130,17 @@ void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *
 }
 
 
-void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
+ILboolean BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 {
 	Edge *edge;
 	ILpointi v1, v2;
 	ILuint i;
-	ILint yPrev = pts[cnt - 2].y;
+	ILint yPrev;
+
+	// Horizontal lines have no edges, so look for the point before them.
+	for (i = cnt - 2; i > 0 && pts[i].y == pts[cnt-1].y; i--)
+		;
+	yPrev = pts[i].y;
 
 	v1.x = pts[cnt-1].x;
 	v1.y = pts[cnt-1].y;
@@ -138,16 +149,20 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		v2 = pts[i];
 		if (v1.y != v2.y) {			// nonhorizontal line
 			edge = (Edge*)ialloc(sizeof(Edge));
+			if (edge == NULL)
+				return IL_FALSE;
 			if (v1.y < v2.y) {		// up-going edge
 				MakeEdgeRec(v1, v2, yNext(i, cnt, pts), edge, edges);
 			}
 			else {					// down-going edge
 				MakeEdgeRec(v2, v1, yPrev, edge, edges);
 			}
+			yPrev = v1.y;
 		}
-		yPrev = v1.y;
 		v1 = v2;
 	}
+
+	return IL_TRUE;
 }
 
 
@@ -161,6 +176,7 @@ void BuildActiveList(ILint scan, Edge *active, Edge *edges[])
 		InsertEdge(active, p);
 		p = q;
 	}
+	edges[scan]->next = NULL;
 }
 
 
@@ -175,7 +191,9 @@ void FillScan(ILint scan, Edge *active)
 	p1 = active->next;
 	while (p1) {
 		p2 = p1->next;
-		for (i = (ILuint)p1->xIntersect; i < p2->xIntersect; i++) {
+		if (p2 == NULL)
+			break;
+		for (i = IL_MAX((ILint)p1->xIntersect, 0); i < p2->xIntersect && i < (ILint)iluCurImage->Width; i++) {
 			iRegionSetPixel((ILuint)i, scan);
 		}
 		p1 = p2->next;
@@ -187,7 +205,7 @@ void DeleteAfter(Edge *q)
 {
 	Edge *p = q->next;
 	q->next = p->next;
-	free(p);
+	ifree(p);
 }
 
 
@@ -223,44 +241,76 @@ void ResortActiveList(Edge *active)
 }
 
 
+static void FreeEdges(Edge *list)
+{
+	Edge *next;
+
+	while (list) {
+		next = list->next;
+		ifree(list);
+		list = next;
+	}
+}
+
+
+// Set when the last call of iScanFill could not make the mask of the region.
+ILboolean iRegionFailed = IL_FALSE;
+
+
+// Returns the mask of the region, or NULL if all of the image is to be changed.
 ILubyte *iScanFill()
 {
-	Edge	**edges = NULL, *active = NULL/*, *temp*/;
-	ILuint	i, scan;
+	Edge	**edges = NULL, *active = NULL;
+	ILpointi	*points = NULL;
+	ILfloat	xf, yf;
+	ILuint	i, scan, plane;
 
 	iRegionMask = NULL;
+	iRegionFailed = IL_FALSE;
 
 	if ((RegionPointsi == NULL && RegionPointsf == NULL) || PointNum == 0)
 		return NULL;
 
-	if (RegionPointsf) {
-		RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * PointNum);
-		if (RegionPointsi == NULL)
-			goto error;
-	}
+	points = (ILpointi*)ialloc(sizeof(ILpointi) * PointNum);
+	if (points == NULL)
+		goto error;
 
 	for (i = 0; i < PointNum; i++) {
 		if (RegionPointsf) {
-			RegionPointsi[i].x = (ILuint)(iluCurImage->Width * RegionPointsf[i].x);
-			RegionPointsi[i].y = (ILuint)(iluCurImage->Height * RegionPointsf[i].y);
+			xf = iluCurImage->Width * RegionPointsf[i].x;
+			yf = iluCurImage->Height * RegionPointsf[i].y;
+			if (!(xf >= 0.0f && xf < iluCurImage->Width && yf >= 0.0f && yf < iluCurImage->Height)) {
+				ifree(points);
+				return NULL;
+			}
+			points[i].x = (ILint)xf;
+			points[i].y = (ILint)yf;
+		}
+		else {
+			points[i] = RegionPointsi[i];
+		}
+		if (points[i].x < 0 || points[i].y < 0 ||
+			points[i].x >= (ILint)iluCurImage->Width || points[i].y >= (ILint)iluCurImage->Height) {
+				ifree(points);
+				return NULL;
 		}
-		if (RegionPointsi[i].x >= (ILint)iluCurImage->Width || RegionPointsi[i].y >= (ILint)iluCurImage->Height)
-			goto error;
 	}
 
-	edges = (Edge**)ialloc(sizeof(Edge*) * iluCurImage->Height);
-	iRegionMask = (ILubyte*)ialloc(iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
-	if (edges == NULL || iRegionMask == NULL)
+	plane = iluCurImage->Width * iluCurImage->Height;
+	edges = (Edge**)icalloc(iluCurImage->Height, sizeof(Edge*));
+	active = (Edge*)icalloc(1, sizeof(Edge));
+	iRegionMask = (ILubyte*)ialloc(plane * iluCurImage->Depth);
+	if (edges == NULL || active == NULL || iRegionMask == NULL)
 		goto error;
-	imemclear(iRegionMask, iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
+	imemclear(iRegionMask, plane * iluCurImage->Depth);
 
 	for (i = 0; i < iluCurImage->Height; i++) {
-		edges[i] = (Edge*)ialloc(sizeof(Edge));
-		edges[i]->next = NULL;
+		edges[i] = (Edge*)icalloc(1, sizeof(Edge));
+		if (edges[i] == NULL)
+			goto error;
 	}
-	BuildEdgeList(PointNum, RegionPointsi, edges);
-	active = (Edge*)ialloc(sizeof(Edge));
-	active->next = NULL;
+	if (!BuildEdgeList(PointNum, points, edges))
+		goto error;
 
 	for (scan = 0; scan < iluCurImage->Height; scan++) {
 		BuildActiveList(scan, active, edges);
@@ -271,34 +321,30 @@ ILubyte *iScanFill()
 		}
 	}
 
-	// Free edge records that have been allocated.
-	/*for (i = 0; i < iluCurImage->Height; i++) {
-		while (edges[i]) {
-			temp = edges[i]->next;
-			ifree(edges[i]);
-			edges[i] = temp;
-		}
-	}*/
+	// The region is the same in every slice.
+	for (i = 1; i < iluCurImage->Depth; i++)
+		memcpy(iRegionMask + i * plane, iRegionMask, plane);
 
+	for (i = 0; i < iluCurImage->Height; i++)
+		FreeEdges(edges[i]);
 	ifree(edges);
-
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
-	}
+	FreeEdges(active);
+	ifree(points);
 
 	return iRegionMask;
 
 error:
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
-	}
+	iRegionFailed = IL_TRUE;
 
 	// Free edge records that have been allocated.
-
+	if (edges != NULL) {
+		for (i = 0; i < iluCurImage->Height; i++)
+			FreeEdges(edges[i]);
+	}
 	ifree(edges);
+	FreeEdges(active);
+	ifree(points);
 	ifree(iRegionMask);
+	iRegionMask = NULL;
 	return NULL;
 }
-
-- 
2.43.0


From 9e774161a8609a823646e6b18bdedd50b1791b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 073/185] fix: noisify leaked the mask and changed 32-bit and
 float images wildly

---
 DevIL/src-ILU/src/ilu_noise.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_noise.cpp b/DevIL/src-ILU/src/ilu_noise.cpp
index 6f0df2e..ef3856c 100644
--- a/DevIL/src-ILU/src/ilu_noise.cpp
+++ b/DevIL/src-ILU/src/ilu_noise.cpp
@@ -24,7 +24,7 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 	ILuint		i, j, c, Factor, Factor2, NumPix;
 	ILint		Val;
 	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
+	ILdouble	Noise;
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
@@ -33,6 +33,11 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		return IL_FALSE;
 	}
 
+	if (!(Tolerance > 0.0f))
+		return IL_TRUE;
+	if (Tolerance > 1.0f)
+		Tolerance = 1.0f;
+
 	RegionMask = iScanFill();
 	if (iRegionFailed)
 		return IL_FALSE;
@@ -41,12 +46,12 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 	//srand(time(NULL));
 	NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;
 
-	switch (iluCurImage->Bpc)
+	switch (iluCurImage->Type == IL_HALF ? 4 : iluCurImage->Bpc)
 	{
 		case 1:
 			Factor = (ILubyte)(Tolerance * (UCHAR_MAX / 2));
 			if (Factor == 0)
-				return IL_TRUE;
+				break;
 			Factor2 = Factor + Factor;
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
 				if (RegionMask) {
@@ -67,7 +72,7 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		case 2:
 			Factor = (ILushort)(Tolerance * (USHRT_MAX / 2));
 			if (Factor == 0)
-				return IL_TRUE;
+				break;
 			Factor2 = Factor + Factor;
 			ShortPtr = (ILushort*)iluCurImage->Data;
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
@@ -86,25 +91,16 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 				}
 			}
 			break;
-		case 4:
-			Factor = (ILuint)(Tolerance * (UINT_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			IntPtr = (ILuint*)iluCurImage->Data;
+		default:  // Larger than what rand gives, or not integers
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
 				if (RegionMask) {
 					if (!RegionMask[j])
 						continue;
 				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
+				Noise = (rand() / (ILdouble)RAND_MAX - 0.5) * Tolerance;
 				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if (IntPtr[i + c] + Val > UINT_MAX)
-						IntPtr[i + c] = UINT_MAX;
-					else if ((ILint)IntPtr[i + c] + Val < 0)
-						IntPtr[i + c] = 0;
-					else
-						IntPtr[i + c] += Val;
+					iPutChannel(iluCurImage->Data, iluCurImage->Type, i + c,
+						iGetChannel(iluCurImage->Data, iluCurImage->Type, i + c) + Noise);
 				}
 			}
 			break;
-- 
2.43.0


From 8a69e22dae2315b9d8a01d5de640b1884fe94702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 074/185] fix: filters read and wrote outside of thin images,
 past the last row and skipped parts of regions

---
 DevIL/src-ILU/src/ilu_filter.cpp | 373 ++++++++++++-------------------
 1 file changed, 138 insertions(+), 235 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 0ec04d5..5bd8711 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -27,8 +27,10 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 		PixSize = 1;
 	r = 0;
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX)
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
 
 	RegionMask = iScanFill();
 	if (iRegionFailed)
@@ -189,11 +191,11 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 // Needs some SERIOUS optimization.
 ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 {
-    ILint		x, y, c, LastX, LastY, Offsets[9];
-	ILuint		i, Temp, z;
+	ILint		x, y, c, i, LastX, LastY, NewX, NewY, Offsets[9];
+	ILuint		z, Offset, Dst;
 	ILubyte		*Data, *ImgData, *NewData, *RegionMask;
 	ILdouble	Num;
-	
+
 	if (Image == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return NULL;
@@ -210,208 +212,67 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 		return NULL;
 	}
 
-	// Preserve original data.
-	ImgData = Image->Data;
-	NewData = Data;
+	LastX = Image->Width  - 1;
+	LastY = Image->Height - 1;
 
 	for (z = 0; z < Image->Depth; z++) {
-		LastX = Image->Width  - 1;
-		LastY = Image->Height - 1;
-		for (y = 1; y < LastY; y++) {
-			for (x = 1; x < LastX; x++) {
-				Offsets[4] = ((y  ) * Image->Width + (x  )) * Image->Bpp;
-				if (RegionMask) {
-					if (!RegionMask[y * Image->Width + x]) {
-						for (c = 0; c < Image->Bpp; c++) {
-							Data[Offsets[4]+c] = Image->Data[Offsets[4]+c];
-						}
-						continue;
-					}
-				}
-
-				Offsets[0] = ((y-1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[1] = ((y-1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[2] = ((y-1) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[3] = ((y  ) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[5] = ((y  ) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[6] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[7] = ((y+1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[8] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-
-				// Always has at least one, so get rid of all those +c's
-				Num =   Image->Data[Offsets[0]] * matrix[0] +
-						Image->Data[Offsets[1]] * matrix[1]+
-						Image->Data[Offsets[2]] * matrix[2]+
-						Image->Data[Offsets[3]] * matrix[3]+
-						Image->Data[Offsets[4]] * matrix[4]+
-						Image->Data[Offsets[5]] * matrix[5]+
-						Image->Data[Offsets[6]] * matrix[6]+
-						Image->Data[Offsets[7]] * matrix[7]+
-						Image->Data[Offsets[8]] * matrix[8];
-
-				Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-				if (Temp > 255)
-					Data[Offsets[4]] = 255;
-				else
-					Data[Offsets[4]] = Temp;
-
-				for (c = 1; c < Image->Bpp; c++) {
-					Num =   Image->Data[Offsets[0]+c] * matrix[0]+
-							Image->Data[Offsets[1]+c] * matrix[1]+
-							Image->Data[Offsets[2]+c] * matrix[2]+
-							Image->Data[Offsets[3]+c] * matrix[3]+
-							Image->Data[Offsets[4]+c] * matrix[4]+
-							Image->Data[Offsets[5]+c] * matrix[5]+
-							Image->Data[Offsets[6]+c] * matrix[6]+
-							Image->Data[Offsets[7]+c] * matrix[7]+
-							Image->Data[Offsets[8]+c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[Offsets[4]+c] = 255;
-					else
-						Data[Offsets[4]+c] = Temp;
+		ImgData = Image->Data + z * Image->SizeOfPlane;
+		NewData = Data + z * Image->SizeOfPlane;
+
+		for (y = 0; y <= LastY; y++) {
+			for (x = 0; x <= LastX; x++) {
+				// If we only copy the edge pixels, then they receive no filtering, making them
+				//	look out of place after several passes of an image.  So we filter the edge
+				//	rows/columns, duplicating the edge pixels for one side of the "matrix".
+				Dst = (y * Image->Width + x) * Image->Bpp;
+				for (i = 0; i < 9; i++) {
+					NewX = IL_MIN(IL_MAX(x + i % 3 - 1, 0), LastX);
+					NewY = IL_MIN(IL_MAX(y + i / 3 - 1, 0), LastY);
+					Offsets[i] = (NewY * Image->Width + NewX) * Image->Bpp;
 				}
-			}
-		}
-
-
-		// Copy 4 corners
-		for (c = 0; c < Image->Bpp; c++) {
-			Data[c] = Image->Data[c];
-			Data[Image->Bps - Image->Bpp + c] = Image->Data[Image->Bps - Image->Bpp + c];
-			Data[(Image->Height - 1) * Image->Bps + c] = Image->Data[(Image->Height - 1) * Image->Bps + c];
-			Data[Image->Height * Image->Bps - Image->Bpp + c] = 
-				Image->Data[Image->Height * Image->Bps - Image->Bpp + c];
-		}
-
-
-		// If we only copy the edge pixels, then they receive no filtering, making them
-		//	look out of place after several passes of an image.  So we filter the edge
-		//	rows/columns, duplicating the edge pixels for one side of the "matrix".
-
-		// First row
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[(x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[x * Image->Bpp + c] * matrix[1]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[(x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[x * Image->Bpp + c] * matrix[4]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[6]+
-						Image->Data[(Image->Width + (x  )) * Image->Bpp + c] * matrix[7]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[x * Image->Bpp + c] = 255;
-					else
-						Data[x * Image->Bpp + c] = Temp;
-			}
-		}
-
-		// Last row
-		y = (Image->Height - 1) * Image->Bps;
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[(Image->Height - 1) * Image->Width + x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
-					continue;
+				// The right column is filtered together with the pixels that follow in memory,
+				//	as far as they belong to this plane.
+				if (x == LastX && LastX >= 2) {
+					for (i = 0; i < 9; i++) {
+						Offset = (ILsizei)(y + i / 3 - 1) * Image->Width + x + i % 3;
+						if (y + i / 3 - 1 >= 0 && Offset < Image->Width * Image->Height)
+							Offsets[i] = Offset * Image->Bpp;
+					}
 				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + (x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[y - Image->Bps + x * Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + (x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[4]+
-						Image->Data[y + (x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[6]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[7]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + x * Image->Bpp + c] = 255;
-					else
-						Data[y + x * Image->Bpp + c] = Temp;
-			}
-		}
+				// The last weight goes to the lower left pixel.
+				if (x != 0 && x != LastX)
+					Offsets[8] = Offsets[6];
 
-		// Left side
-		for (i = 1, y = Image->Bps; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp]) {
-					Data[y + c] = Image->Data[y + c];
+				// The four corners and what is not in the region are copied.
+				if (((x == 0 || x == LastX) && (y == 0 || y == LastY)) ||
+					(RegionMask && !RegionMask[y * Image->Width + x])) {
+					for (c = 0; c < Image->Bpp; c++) {
+						NewData[Dst+c] = ImgData[Dst+c];
+					}
 					continue;
 				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
-		}
 
-		// Right side
-		for (i = 1, y = Image->Bps * 2 - Image->Bpp; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp + (Image->Width - 1)]) {
-					for (c = 0; c < Image->Bpp; c++) {
-						Data[y + c] = Image->Data[y + c];
+				for (c = 0; c < Image->Bpp; c++) {
+					Num = 0.0;
+					for (i = 0; i < 9; i++) {
+						Num += ImgData[Offsets[i]+c] * (ILdouble)matrix[i];
 					}
-					continue;
+
+					// The magnitude is rounded down.
+					Num = fabs((Num / (ILdouble)scale) + bias);
+					if (Num > 255.0)
+						NewData[Dst+c] = 255;
+					else if (Num >= 0.0)
+						NewData[Dst+c] = (ILubyte)Num;
+					else  // Not a number
+						NewData[Dst+c] = 0;
 				}
 			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
 		}
-
-		// Go to next "plane".
-		Image->Data += Image->SizeOfPlane;
-		Data += Image->SizeOfPlane;
 	}
 
 	ifree(RegionMask);
 
-	// Restore original data.
-	Image->Data = ImgData;
-	Data = NewData;
-
 	return Data;
 }
 
@@ -431,12 +292,14 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 
@@ -456,7 +319,7 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 		else if (VPass[i] == 0)
 			iluCurImage->Data[i] = HPass[i];
 		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+			iluCurImage->Data[i] = (ILubyte)IL_MIN(255.0f, sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i])));
 	}
 
 	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
@@ -466,10 +329,14 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 	ifree(HPass);
 	ifree(VPass);
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	if (Palette) {
+		if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
+	else if (Converted) {
+		if (!ilConvertImage(iluCurImage->Format, Type))
+			return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -490,12 +357,14 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	HPass = Filter(iluCurImage, filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias);
@@ -514,7 +383,7 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 		else if (VPass[i] == 0)
 			iluCurImage->Data[i] = HPass[i];
 		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+			iluCurImage->Data[i] = (ILubyte)IL_MIN(255.0f, sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i])));
 	}
 
 	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
@@ -524,10 +393,14 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 	ifree(HPass);
 	ifree(VPass);
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	if (Palette) {
+		if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
+	else if (Converted) {
+		if (!ilConvertImage(iluCurImage->Format, Type))
+			return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -548,12 +421,14 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	for (i = 0; i < Iter; i++) {
@@ -564,10 +439,14 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 		iluCurImage->Data = Data;
 	}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	if (Palette) {
+		if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
+	else if (Converted) {
+		if (!ilConvertImage(iluCurImage->Format, Type))
+			return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -588,12 +467,14 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	for (i = 0; i < Iter; i++) {
@@ -604,10 +485,14 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 		iluCurImage->Data = Data;
 	}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	if (Palette) {
+		if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
+	else if (Converted) {
+		if (!ilConvertImage(iluCurImage->Format, Type))
+			return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -627,12 +512,14 @@ ILboolean ILAPIENTRY iluEmboss()
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	Data = Filter(iluCurImage, filter_emboss, filter_emboss_scale, filter_emboss_bias);
@@ -641,10 +528,14 @@ ILboolean ILAPIENTRY iluEmboss()
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	if (Palette) {
+		if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
+	else if (Converted) {
+		if (!ilConvertImage(iluCurImage->Format, Type))
+			return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -695,12 +586,14 @@ ILboolean ILAPIENTRY iluEdgeDetectE()
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	Data = Filter(iluCurImage, filter_embossedge, filter_embossedge_scale, filter_embossedge_bias);
@@ -709,10 +602,14 @@ ILboolean ILAPIENTRY iluEdgeDetectE()
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	if (Palette) {
+		if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
+	else if (Converted) {
+		if (!ilConvertImage(iluCurImage->Format, Type))
+			return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -1301,11 +1198,13 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 	
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	} else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	
 	Data = Filter(iluCurImage, matrix, scale, bias);
@@ -1314,10 +1213,14 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 	
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	if (Palette) {
+		if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
+	else if (Converted) {
+		if (!ilConvertImage(iluCurImage->Format, Type))
+			return IL_FALSE;
+	}
 	
 	return IL_TRUE;
 }
-- 
2.43.0


From 570d482b34bfc39a359efb40380279da5a0a83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 075/185] fix: pixelizing read a missing region mask and
 averaged wide types wrongly

---
 DevIL/src-ILU/src/ilu_filter.cpp | 168 ++++++-------------------------
 1 file changed, 30 insertions(+), 138 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 5bd8711..ae861ce 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -11,10 +11,8 @@
 //! Pixelizes an image
 ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 {
-	ILuint		x, y, z, i, j, k, c, r, Total, Tested;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr, DblTotal, DblTested;
+	ILuint		x, y, z, i, j, k, c, Pixel, BlockW, BlockH, BlockD;
+	ILdouble	Total;
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
@@ -25,7 +23,8 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 
 	if (PixSize == 0)
 		PixSize = 1;
-	r = 0;
+	// Blocks larger than the image are as good as blocks of its size.
+	PixSize = IL_MIN(PixSize, IL_MAX(iluCurImage->Width, IL_MAX(iluCurImage->Height, iluCurImage->Depth)));
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
@@ -36,147 +35,40 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 	if (iRegionFailed)
 		return IL_FALSE;
 
-	switch (iluCurImage->Bpc)
-	{
-		case 1:
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask) {
-											if (!RegionMask[(y+j) * iluCurImage->Width + (x+i)])
-												continue;
-										}
-										iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-											* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-											Total;
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			break;
-		case 2:
-			ShortPtr = (ILushort*)iluCurImage->Data;
-			iluCurImage->Bps /= 2;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += ShortPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											ShortPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 2;
-			break;
-		case 4:
-			IntPtr = (ILuint*)iluCurImage->Data;
-			iluCurImage->Bps /= 4;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += IntPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											IntPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
+	for (z = 0; z < iluCurImage->Depth; z += PixSize) {
+		BlockD = IL_MIN(PixSize, iluCurImage->Depth - z);
+		for (y = 0; y < iluCurImage->Height; y += PixSize) {
+			BlockH = IL_MIN(PixSize, iluCurImage->Height - y);
+			for (x = 0; x < iluCurImage->Width; x += PixSize) {
+				BlockW = IL_MIN(PixSize, iluCurImage->Width - x);
+				if (BlockW == 1 && BlockH == 1 && BlockD == 1)
+					continue;  // One pixel is its own average.
+
+				for (c = 0; c < iluCurImage->Bpp; c++) {
+					Total = 0.0;
+					for (k = 0; k < BlockD; k++) {
+						for (j = 0; j < BlockH; j++) {
+							for (i = 0; i < BlockW; i++) {
+								Pixel = ((z+k) * iluCurImage->Height + (y+j)) * iluCurImage->Width + (x+i);
+								Total += iGetChannel(iluCurImage->Data, iluCurImage->Type, Pixel * iluCurImage->Bpp + c);
 							}
 						}
 					}
-				}
-			}
-			iluCurImage->Bps *= 4;
-			break;
-		case 8:
-			DblPtr = (ILdouble*)iluCurImage->Data;
-			iluCurImage->Bps /= 8;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							DblTotal = 0.0;  DblTested = 0.0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										DblTotal += DblPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							DblTotal /= DblTested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										if (RegionMask[r+i]) {
-											DblPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												DblTotal;
-										}
-									}
-								}
+					Total /= (ILdouble)BlockW * BlockH * BlockD;
+
+					for (k = 0; k < BlockD; k++) {
+						for (j = 0; j < BlockH; j++) {
+							for (i = 0; i < BlockW; i++) {
+								if (RegionMask && !RegionMask[(y+j) * iluCurImage->Width + (x+i)])
+									continue;
+								Pixel = ((z+k) * iluCurImage->Height + (y+j)) * iluCurImage->Width + (x+i);
+								iPutChannel(iluCurImage->Data, iluCurImage->Type, Pixel * iluCurImage->Bpp + c, Total);
 							}
 						}
 					}
 				}
 			}
-			iluCurImage->Bps *= 8;
-			break;
+		}
 	}
 
 	ifree(RegionMask);
-- 
2.43.0


From 3c8f6e69282d0c9fd78389a12cc27b46edd7ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 076/185] fix: scaling the colours or the alpha of unsigned
 byte images was refused, luminance images were scaled in part

---
 DevIL/src-ILU/src/ilu_filter.cpp | 88 ++++++++++++--------------------
 1 file changed, 33 insertions(+), 55 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index ae861ce..bb11d84 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -506,10 +506,21 @@ ILboolean ILAPIENTRY iluEdgeDetectE()
 	return IL_TRUE;
 }
 
+// Scales one value and limits it to a range of 0 to Max.
+static ILuint iScaleValue(ILuint Value, ILfloat Scale, ILuint Max)
+{
+	ILdouble Scaled = (ILdouble)Value * Scale;
+
+	if (!(Scaled > 0.0))
+		return 0;
+	return Scaled >= Max ? Max : (ILuint)Scaled;
+}
+
+
 ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 {
 	ILuint		i;
-	ILint		alpha;
+	ILuint		alpha;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -517,7 +528,7 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
+	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Bpc != 1) ) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -527,9 +538,7 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 		case IL_BGRA:
 		case IL_RGBA:
 			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				alpha = (ILint)(iluCurImage->Data[i+3] * scale);
-				if (alpha > UCHAR_MAX) alpha = UCHAR_MAX;
-				if (alpha < 0) alpha = 0;
+				alpha = iScaleValue(iluCurImage->Data[i+3], scale, UCHAR_MAX);
 				iluCurImage->Data[i+3] = (ILubyte)alpha;
 			}
 			break;
@@ -540,9 +549,7 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 				case IL_PAL_RGBA32:
 				case IL_PAL_BGRA32:
 					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						alpha = (ILint)(iluCurImage->Pal.Palette[i+3] * scale);
-						if (alpha > UCHAR_MAX) alpha = UCHAR_MAX;
-						if (alpha < 0) alpha = 0;
+						alpha = iScaleValue(iluCurImage->Pal.Palette[i+3], scale, UCHAR_MAX);
 						iluCurImage->Pal.Palette[i+3] = (ILubyte)alpha;
 					}
 					break;
@@ -569,7 +576,7 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 //! Scales image colours
 ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 	ILuint		i;
-	ILint		red, grn, blu, grey;
+	ILuint		red, grn, blu, grey;
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr, NumPix;
 	ILdouble	*DblPtr;
@@ -580,7 +587,7 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
+	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Bpc != 1) ) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -590,15 +597,9 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 		case IL_RGB:
 		case IL_RGBA:
 			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				red = (ILint)(iluCurImage->Data[i] * r);
-				grn = (ILint)(iluCurImage->Data[i+1] * g);
-				blu = (ILint)(iluCurImage->Data[i+2] * b);
-				if (red > UCHAR_MAX) red = UCHAR_MAX;
-				if (red < 0) red = 0;
-				if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-				if (grn < 0) grn = 0;
-				if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-				if (blu < 0) blu = 0;
+				red = iScaleValue(iluCurImage->Data[i], r, UCHAR_MAX);
+				grn = iScaleValue(iluCurImage->Data[i+1], g, UCHAR_MAX);
+				blu = iScaleValue(iluCurImage->Data[i+2], b, UCHAR_MAX);
 				iluCurImage->Data[i]   = (ILubyte)red;
 				iluCurImage->Data[i+1] = (ILubyte)grn;
 				iluCurImage->Data[i+2] = (ILubyte)blu;
@@ -608,15 +609,9 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 		case IL_BGR:
 		case IL_BGRA:
 			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				red = (ILint)(iluCurImage->Data[i+2] * r);
-				grn = (ILint)(iluCurImage->Data[i+1] * g);
-				blu = (ILint)(iluCurImage->Data[i] * b);
-				if (red > UCHAR_MAX) red = UCHAR_MAX;
-				if (red < 0) red = 0;
-				if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-				if (grn < 0) grn = 0;
-				if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-				if (blu < 0) blu = 0;
+				red = iScaleValue(iluCurImage->Data[i+2], r, UCHAR_MAX);
+				grn = iScaleValue(iluCurImage->Data[i+1], g, UCHAR_MAX);
+				blu = iScaleValue(iluCurImage->Data[i], b, UCHAR_MAX);
 				iluCurImage->Data[i+2] = (ILubyte)red;
 				iluCurImage->Data[i+1] = (ILubyte)grn;
 				iluCurImage->Data[i]   = (ILubyte)blu;
@@ -625,13 +620,11 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 
 		case IL_LUMINANCE:
 		case IL_LUMINANCE_ALPHA:
-			NumPix = iluCurImage->SizeOfData / (iluCurImage->Bpc*iluCurImage->Bpp);
+			NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;
 			switch (iluCurImage->Bpc) {
 				case 1:
 					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(iluCurImage->Data[i] * r);
-						if (grey > UCHAR_MAX) grey = UCHAR_MAX;
-						if (grey < 0) grey = 0;
+						grey = iScaleValue(iluCurImage->Data[i], r, UCHAR_MAX);
 						iluCurImage->Data[i] = (ILubyte)grey;
 					}
 					break;
@@ -639,9 +632,7 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 				case 2:
 					ShortPtr = (ILushort*)iluCurImage->Data;
 					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(ShortPtr[i] * r);
-						if (grey > USHRT_MAX) grey = USHRT_MAX;
-						if (grey < 0) grey = 0;
+						grey = iScaleValue(ShortPtr[i], r, USHRT_MAX);
 						ShortPtr[i] = (ILushort)grey;
 					}
 					break;
@@ -649,8 +640,7 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 				case 4:
 					IntPtr = (ILuint*)iluCurImage->Data;
 					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(IntPtr[i] * r);
-						if (grey < 0) grey = 0;
+						grey = iScaleValue(IntPtr[i], r, UINT_MAX);
 						IntPtr[i] = (ILuint)grey;
 					}
 					break;
@@ -671,15 +661,9 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 				case IL_PAL_RGB32:
 				case IL_PAL_RGBA32:
 					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						red = (ILint)(iluCurImage->Pal.Palette[i] * r);
-						grn = (ILint)(iluCurImage->Pal.Palette[i+1] * g);
-						blu = (ILint)(iluCurImage->Pal.Palette[i+2] * b);
-						if (red > UCHAR_MAX) red = UCHAR_MAX;
-						if (red < 0) red = 0;
-						if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-						if (grn < 0) grn = 0;
-						if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-						if (blu < 0) blu = 0;
+						red = iScaleValue(iluCurImage->Pal.Palette[i], r, UCHAR_MAX);
+						grn = iScaleValue(iluCurImage->Pal.Palette[i+1], g, UCHAR_MAX);
+						blu = iScaleValue(iluCurImage->Pal.Palette[i+2], b, UCHAR_MAX);
 						iluCurImage->Pal.Palette[i]   = (ILubyte)red;
 						iluCurImage->Pal.Palette[i+1] = (ILubyte)grn;
 						iluCurImage->Pal.Palette[i+2] = (ILubyte)blu;
@@ -690,15 +674,9 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 				case IL_PAL_BGR32:
 				case IL_PAL_BGRA32:
 					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						red = (ILint)(iluCurImage->Pal.Palette[i+2] * r);
-						grn = (ILint)(iluCurImage->Pal.Palette[i+1] * g);
-						blu = (ILint)(iluCurImage->Pal.Palette[i] * b);
-						if (red > UCHAR_MAX) red = UCHAR_MAX;
-						if (red < 0) red = 0;
-						if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-						if (grn < 0) grn = 0;
-						if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-						if (blu < 0) blu = 0;
+						red = iScaleValue(iluCurImage->Pal.Palette[i+2], r, UCHAR_MAX);
+						grn = iScaleValue(iluCurImage->Pal.Palette[i+1], g, UCHAR_MAX);
+						blu = iScaleValue(iluCurImage->Pal.Palette[i], b, UCHAR_MAX);
 						iluCurImage->Pal.Palette[i+2]   = (ILubyte)red;
 						iluCurImage->Pal.Palette[i+1] = (ILubyte)grn;
 						iluCurImage->Pal.Palette[i] = (ILubyte)blu;
-- 
2.43.0


From 758e14832a28ac6f8bb11fa9731062ba434d3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 077/185] fix: gamma correction of 1.0 changed images, wide
 types lost their low bits and floats were read as integers

---
 DevIL/src-ILU/src/ilu_filter.cpp | 43 +++++++++++---------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index bb11d84..c178680 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -707,10 +707,9 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 
 ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 {
-	ILfloat		Table[256];
+	ILubyte		Table[256];
 	ILuint		i, NumPix;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
+	ILdouble	Value;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -719,38 +718,26 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 	}
 
 	for (i = 0; i < 256; i++) {
-		Table[i] = (ILfloat)pow(i / 255.0, 1.0 / Gamma);
+		Value = pow(i / 255.0, 1.0 / Gamma) * UCHAR_MAX + 0.5;
+		Table[i] = Value < UCHAR_MAX ? (ILubyte)IL_MAX(Value, 0.0) : UCHAR_MAX;
 	}
 
-	// Do we need to clamp here?
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		for (i = 0; i < iluCurImage->Pal.PalSize; i++) {
-			iluCurImage->Pal.Palette[i] = (ILubyte)(Table[iluCurImage->Pal.Palette[i]] * 255);
+			iluCurImage->Pal.Palette[i] = Table[iluCurImage->Pal.Palette[i]];
+		}
+	}
+	else if (iluCurImage->Bpc == 1) {
+		for (i = 0; i < iluCurImage->SizeOfData; i++) {
+			iluCurImage->Data[i] = Table[iluCurImage->Data[i]];
 		}
 	}
 	else {
-		// Not too sure if this is the correct way of handling multiple bpc's.
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (i = 0; i < iluCurImage->SizeOfData; i++) {
-					iluCurImage->Data[i] = (ILubyte)(Table[iluCurImage->Data[i]] * UCHAR_MAX);
-				}
-				break;
-			case 2:
-				NumPix = iluCurImage->SizeOfData / 2;
-				ShortPtr = (ILushort*)iluCurImage->Data;
-				for (i = 0; i < NumPix; i++) {
-					ShortPtr[i] = (ILushort)(Table[ShortPtr[i] >> 8] * USHRT_MAX);
-				}
-				break;
-			case 4:
-				NumPix = iluCurImage->SizeOfData / 4;
-				IntPtr = (ILuint*)iluCurImage->Data;
-				for (i = 0; i < NumPix; i++) {
-					IntPtr[i] = (ILuint)(Table[IntPtr[i] >> 24] * UINT_MAX);
-				}
-				break;
+		NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;
+		for (i = 0; i < NumPix; i++) {
+			Value = iGetChannel(iluCurImage->Data, iluCurImage->Type, i);
+			if (Value > 0.0)
+				iPutChannel(iluCurImage->Data, iluCurImage->Type, i, pow(Value, 1.0 / Gamma));
 		}
 	}
 
-- 
2.43.0


From 3c5f8e85a09803a54cd0fbeb3324bbe3305164e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 078/185] fix: saturation wrapped around, mixed the channels of
 BGR images, took parts of wide types and succeeded on unsupported formats

---
 DevIL/src-ILU/src/ilu_filter.cpp | 58 ++++++++++++++------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index c178680..da30b07 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -751,52 +751,46 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 //
 
 
-void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
+ILboolean iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 {
-	ILubyte	*Data = Image->Data;
-	ILuint	i;
-	ILubyte	r, g, b;
+	ILubyte		*Data = Image->Data;
+	ILuint		i, c, Order[3];
+	ILdouble	Src[3], Value;
+
+	if (Image->Bpc != 1) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
+	// Where red, green and blue are found in a pixel.
 	switch (Image->Format)
 	{
 		case IL_RGB:
 		case IL_RGBA:
-			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				Data[i]   = r;
-				Data[i+1] = g;
-				Data[i+2] = b;
-				i += Image->Bpp;
-			}
+			Order[0] = 0;  Order[1] = 1;  Order[2] = 2;
 			break;
 
 		case IL_BGR:
 		case IL_BGRA:
-			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				Data[i]   = b;
-				Data[i+1] = g;
-				Data[i+2] = r;
-				i += Image->Bpp;
-			}
+			Order[0] = 2;  Order[1] = 1;  Order[2] = 0;
 			break;
 
 		default:
 			ilSetError(ILU_ILLEGAL_OPERATION);
-			return;
+			return IL_FALSE;
 	}
 
-	return;
+	for (i = 0; i < Image->SizeOfData; i += Image->Bpp) {
+		for (c = 0; c < 3; c++)
+			Src[c] = Data[i + Order[c]];
+		for (c = 0; c < 3; c++) {
+			// The weights seldom add up to exactly 1.0.
+			Value = Src[0] * Mat[0][c] + Src[1] * Mat[1][c] + Src[2] * Mat[2][c] + 0.5;
+			Data[i + Order[c]] = Value < UCHAR_MAX ? (ILubyte)IL_MAX(Value, 0.0) : UCHAR_MAX;
+		}
+	}
+
+	return IL_TRUE;
 }
 
 
@@ -858,9 +852,7 @@ ILboolean ILAPIENTRY iluSaturate4f(ILfloat r, ILfloat g, ILfloat b, ILfloat Satu
 		return IL_FALSE;
 	}
 
-	iApplyMatrix(iluCurImage, Mat);
-
-	return IL_TRUE;
+	return iApplyMatrix(iluCurImage, Mat);
 }
 
 
-- 
2.43.0


From d43a65563aedbfbe48d313ed34bd54b1207be771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 079/185] fix: iluAlienify mixed the bytes of wide types and
 failed without an error

---
 DevIL/src-ILU/src/ilu_filter.cpp | 48 ++++++--------------------------
 1 file changed, 8 insertions(+), 40 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index da30b07..035cb09 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -794,27 +794,6 @@ ILboolean iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 }
 
 
-void iIdentity(ILfloat *Matrix)
-{
-    *Matrix++ = 1.0;    // row 1
-    *Matrix++ = 0.0;
-    *Matrix++ = 0.0;
-    //*Matrix++ = 0.0;
-    *Matrix++ = 0.0;    // row 2
-    *Matrix++ = 1.0;
-    *Matrix++ = 0.0;
-    //*Matrix++ = 0.0;
-    *Matrix++ = 0.0;    // row 3
-    *Matrix++ = 0.0;
-    *Matrix++ = 1.0;
-    //*Matrix++ = 0.0;
-    /**Matrix++ = 0.0;    // row 4
-    *Matrix++ = 0.0;
-    *Matrix++ = 0.0;
-    *Matrix++ = 1.0;*/
-}
-
-
 ILboolean ILAPIENTRY iluSaturate1f(ILfloat Saturation)
 {
 	return iluSaturate4f(0.3086f, 0.6094f, 0.0820f, Saturation);
@@ -860,9 +839,8 @@ ILboolean ILAPIENTRY iluSaturate4f(ILfloat r, ILfloat g, ILfloat b, ILfloat Satu
 //! Funny as hell filter that I stumbled upon accidentally
 ILboolean ILAPIENTRY iluAlienify(void)
 {
-	ILfloat	Mat[3][3];
 	ILubyte	*Data;
-	ILuint	i;
+	ILuint	i, PixSize;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -870,37 +848,27 @@ ILboolean ILAPIENTRY iluAlienify(void)
 		return IL_FALSE;
 	}
 	Data = iluCurImage->Data;
+	PixSize = iluCurImage->Bpp * iluCurImage->Bpc;
 
-	iIdentity((ILfloat*)Mat);
-
+	// Red becomes the same as blue.
 	switch (iluCurImage->Format)
 	{
 		case IL_BGR:
 		case IL_BGRA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				Data[i+2] = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				Data[i+1] = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				Data[i]   = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
+			for (i = 0; i < iluCurImage->SizeOfData; i += PixSize) {
+				memcpy(Data + i + 2 * iluCurImage->Bpc, Data + i, iluCurImage->Bpc);
 			}
 		break;
 
 		case IL_RGB:
 		case IL_RGBA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				Data[i]   = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				Data[i+1] = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				Data[i+2] = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
+			for (i = 0; i < iluCurImage->SizeOfData; i += PixSize) {
+				memcpy(Data + i, Data + i + 2 * iluCurImage->Bpc, iluCurImage->Bpc);
 			}
 		break;
 
 		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
-- 
2.43.0


From 50bce8f429d4666d4c6324b4ac9986c07a34dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 080/185] fix: sharpening and contrast treated wide types and
 indices as bytes, sharpening covered one slice only

---
 DevIL/src-ILU/src/ilu_filter.cpp | 101 ++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 37 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 035cb09..343f5c4 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -884,28 +884,32 @@ ILboolean ILAPIENTRY iluAlienify(void)
 
 
 
+// Interpolates between or extrapolates from two images of the same size, format and type.
 void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
 {
-	ILuint	i;
-	ILint	d;
-	ILubyte	*Data1, *Data2;
-
-	Data1 = Image1->Data;
-	Data2 = Image2->Data;
-
-	for (i = 0; i < Image2->SizeOfData; i++) {
-		d = (ILint)((1 - a) * *Data1 + a * *Data2);
-		// Limit a pixel value to the range [0, 255]
-		if (d < 0) 
-			d = 0;
-		else if (d > 255)
-			d = 255;
-		*Data2 = d;
+	ILuint		i, NumPix;
+	ILdouble	d;
+
+	if (Image2->Bpc == 1) {
+		for (i = 0; i < Image2->SizeOfData; i++) {
+			d = (1 - a) * Image1->Data[i] + a * Image2->Data[i];
+			// Limit a pixel value to the range [0, 255]
+			if (d < 255.0)
+				Image2->Data[i] = (ILubyte)IL_MAX(d, 0.0);
+			else
+				Image2->Data[i] = 255;
+		}
+		return;
+	}
 
-		Data1++;
-		Data2++;
+	NumPix = Image2->SizeOfData / Image2->Bpc;
+	for (i = 0; i < NumPix; i++) {
+		// iPutChannel limits the value to the range of the type.
+		iPutChannel(Image2->Data, Image2->Type, i,
+			(1.0 - a) * iGetChannel(Image1->Data, Image1->Type, i) +
+			a * iGetChannel(Image2->Data, Image2->Type, i));
 	}
-			
+
 	return;
 }
 
@@ -942,8 +946,10 @@ void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
 // Works best when Contrast is in the range [-0.5, 1.7].
 ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 {
-	ILimage	*Grey;
-	ILuint	i;
+	const ILdouble	Grey = 127.0 / 255.0;
+	ILubyte			*Data;
+	ILuint			i, NumPix;
+	ILenum			Type;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -951,18 +957,22 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 		return IL_FALSE;
 	}
 
-	Grey = ilNewImage(iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Bpc);
-	if (Grey == NULL) {
-		return IL_FALSE;
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		// The colours are in the palette.
+		Data = iluCurImage->Pal.Palette;
+		Type = IL_UNSIGNED_BYTE;
+		NumPix = Data ? iluCurImage->Pal.PalSize : 0;
 	}
-
-	// Make Grey all 127's
-	for (i = 0; i < Grey->SizeOfData; i++) {
-		Grey->Data[i] = 127;
+	else {
+		Data = iluCurImage->Data;
+		Type = iluCurImage->Type;
+		NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;
 	}
 
-	iIntExtImg(Grey, iluCurImage, Contrast);
-	ilCloseImage(Grey);
+	// Away from (or closer to) grey
+	for (i = 0; i < NumPix; i++) {
+		iPutChannel(Data, Type, i, (1.0 - Contrast) * Grey + Contrast * iGetChannel(Data, Type, i));
+	}
 
 	return IL_TRUE;
 }
@@ -972,31 +982,48 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 // Blurs when Factor is in the range [0.0, 1.0].
 ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 {
-	ILimage	*Blur, *CurImage;  // iluBlur() changes iluCurImage
-	ILuint	i;
-	
+	ILimage		*Blur, *CurImage;  // iluBlur() changes iluCurImage
+	ILuint		i;
+	ILboolean	Palette = IL_FALSE, Blurred;
+
 	CurImage = ilGetCurImage();
 	if (CurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	// Indices cannot be interpolated.
+	if (CurImage->Format == IL_COLOUR_INDEX) {
+		Palette = IL_TRUE;
+		if (!ilConvertImage(ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
+
 	Blur = ilNewImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Bpc);
 	if (Blur == NULL) {
 		return IL_FALSE;
 	}
-	ilCopyImageAttr(Blur, CurImage);
+	if (!ilCopyImageAttr(Blur, CurImage)) {
+		ilCloseImage(Blur);
+		return IL_FALSE;
+	}
 
-	ilCopyPixels(0, 0, 0, CurImage->Width, CurImage->Height, 1, CurImage->Format, CurImage->Type, Blur->Data);
+	memcpy(Blur->Data, CurImage->Data, CurImage->SizeOfData);
 	ilSetCurImage(Blur);
-	iluBlurGaussian(1);
+	Blurred = iluBlurGaussian(1);
+	ilSetCurImage(CurImage);
+	iluCurImage = CurImage;
 
-	for (i = 0; i < Iter; i++) {
+	for (i = 0; Blurred && i < Iter; i++) {
 		iIntExtImg(Blur, CurImage, Factor);
 	}
 
 	ilCloseImage(Blur);
-	ilSetCurImage(CurImage);
+	if (!Blurred)
+		return IL_FALSE;
+
+	if (Palette)
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From fe75e51c8fc9cfba6ef5bdb0afb6a6bf930be3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 081/185] fix: a failure while building mipmaps was not
 reported and left an incomplete chain

---
 DevIL/src-ILU/src/ilu_mipmap.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_mipmap.cpp b/DevIL/src-ILU/src/ilu_mipmap.cpp
index 94efbf5..8eb13fa 100644
--- a/DevIL/src-ILU/src/ilu_mipmap.cpp
+++ b/DevIL/src-ILU/src/ilu_mipmap.cpp
@@ -35,9 +35,7 @@ ILboolean iBuildMipmaps(ILimage *Parent, ILuint Width, ILuint Height, ILuint Dep
 	if (Parent->Mipmaps == NULL)
 		return IL_FALSE;
 
-	iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
-
-	return IL_TRUE;
+	return iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
 }
 
 
@@ -56,5 +54,12 @@ ILboolean ILAPIENTRY iluBuildMipmaps()
 		iluCurImage->Mipmaps = NULL;
 	}
 
-	return iBuildMipmaps(iluCurImage, iluCurImage->Width >> 1, iluCurImage->Height >> 1, iluCurImage->Depth >> 1);
+	if (!iBuildMipmaps(iluCurImage, iluCurImage->Width >> 1, iluCurImage->Height >> 1, iluCurImage->Depth >> 1)) {
+		// An incomplete chain is of no use.
+		ilCloseImage(iluCurImage->Mipmaps);
+		iluCurImage->Mipmaps = NULL;
+		return IL_FALSE;
+	}
+
+	return IL_TRUE;
 }
-- 
2.43.0


From e37a58a287d3dd33a79ec71aab2cce6a46b5894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 082/185] fix: rotation by right angles mirrored, wrote outside
 of images that are not square and covered one slice only

---
 DevIL/src-ILU/src/ilu_rotate.cpp | 375 ++++++++++---------------------
 1 file changed, 117 insertions(+), 258 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index c688622..9834940 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -15,50 +15,72 @@
 #include "ilu_states.h"
 
 
+// Brings an angle into the range of 0 to 360 degrees.
+static ILfloat iNormalizeAngle(ILfloat Angle)
+{
+	Angle = (ILfloat)fmod((ILdouble)Angle, 360.0);
+	if (Angle < 0)
+		Angle = 360.0f + Angle;
+	return Angle;
+}
+
+
 ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 {
-	ILimage	*Temp, *Temp1, *CurImage = NULL;
-	ILenum	PalType = 0;
+	ILimage	*Temp, *Temp1, *CurImage, *Image;
+	ILubyte	*Palette = NULL;
 
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	CurImage = iluCurImage = ilGetCurImage();
+	if (CurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		PalType = iluCurImage->Pal.PalType;
-		CurImage = iluCurImage;
-		iluCurImage = iConvertImage(iluCurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	// Only turns by multiples of 90 degrees leave nothing to be filled with the clear colour.
+	Image = CurImage;
+	if (CurImage->Format == IL_COLOUR_INDEX && fmod(iNormalizeAngle(Angle), 90.0) != 0.0) {
+		Image = iConvertImage(CurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (Image == NULL)
+			return IL_FALSE;
 	}
 
-	Temp = iluRotate_(iluCurImage, Angle);
-	if (Temp != NULL) {
-		if (PalType != 0) {
-			ilCloseImage(iluCurImage);
+	Temp = iluRotate_(Image, Angle);
+	if (Image != CurImage) {
+		ilCloseImage(Image);
+		if (Temp != NULL) {
 			Temp1 = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 			ilCloseImage(Temp);
 			Temp = Temp1;
-			ilSetCurImage(CurImage);
 		}
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
-		if (PalType != 0) {
-			iluCurImage = ilGetCurImage();
-			iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
-			iluCurImage->Pal.PalType = Temp->Pal.PalType;
-			iluCurImage->Pal.Palette = (ILubyte*)ialloc(Temp->Pal.PalSize);
-			if (iluCurImage->Pal.Palette == NULL) {
-				ilCloseImage(Temp);
-				return IL_FALSE;
-			}
-			memcpy(iluCurImage->Pal.Palette, Temp->Pal.Palette, Temp->Pal.PalSize);
+		ilSetCurImage(CurImage);
+	}
+	if (Temp == NULL)
+		return IL_FALSE;
+
+	if (Temp->Format == IL_COLOUR_INDEX && Temp->Pal.Palette != NULL && Temp->Pal.PalSize != 0) {
+		Palette = (ILubyte*)ialloc(Temp->Pal.PalSize);
+		if (Palette == NULL) {
+			ilCloseImage(Temp);
+			return IL_FALSE;
 		}
+		memcpy(Palette, Temp->Pal.Palette, Temp->Pal.PalSize);
+	}
 
-		iluCurImage->Origin = Temp->Origin;
+	if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
+		ifree(Palette);
 		ilCloseImage(Temp);
-		return IL_TRUE;
+		return IL_FALSE;
 	}
-	return IL_FALSE;
+
+	if (Palette != NULL) {
+		CurImage->Pal.PalSize = Temp->Pal.PalSize;
+		CurImage->Pal.PalType = Temp->Pal.PalType;
+		CurImage->Pal.Palette = Palette;
+	}
+	CurImage->Origin = Temp->Origin;
+	ilCloseImage(Temp);
+
+	return IL_TRUE;
 }
 
 
@@ -69,6 +91,11 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 // return IL_FALSE;
 
 	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	Temp = iluRotate3D_(iluCurImage, x, y, z, Angle);
 	if (Temp != NULL) {
 		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
@@ -86,20 +113,26 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 {
 	ILimage		*Rotated = NULL;
-	ILint		x, y, c;
+	ILint		x, y, z;
 	ILdouble	Cos, Sin;
-	ILuint		RotOffset, ImgOffset;
+	ILuint		Width, Height, PixSize, Turns = 0;
+	ILubyte		*RotData, *ImgData;
 	ILint		MinX, MinY, MaxX, MaxY;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr;
 	ILdouble	Point1x, Point1y, Point2x, Point2y, Point3x, Point3y;
 	ILint		SrcX, SrcY;
 
 	// Multiples of 90 are special.
-	Angle = (ILfloat)fmod((ILdouble)Angle, 360.0);
-	if (Angle < 0)
-		Angle = 360.0f + Angle;
+	Angle = iNormalizeAngle(Angle);
+	if (Angle != Angle) {  // Not a number
+		ilSetError(ILU_INVALID_PARAM);
+		return NULL;
+	}
+	if (Angle == 90.0)
+		Turns = 1;
+	else if (Angle == 180.0)
+		Turns = 2;
+	else if (Angle == 270.0)
+		Turns = 3;
 
 	Cos = (ILdouble)cos((IL_PI * Angle) / 180.0);
 	Sin = (ILdouble)sin((IL_PI * Angle) / 180.0);
@@ -124,238 +157,64 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 		return NULL;
 	}
 
-	if (ilResizeImage(Rotated, (ILuint)ceil(fabs(MaxX) - MinX), (ILuint)ceil(fabs(MaxY) - MinY), 1, Image->Bpp, Image->Bpc) == IL_FALSE) {
+	if (Turns == 1 || Turns == 3) {
+		Width = Image->Height;
+		Height = Image->Width;
+	}
+	else if (Turns == 2) {
+		Width = Image->Width;
+		Height = Image->Height;
+	}
+	else {
+		Width = IL_MAX(1, (ILuint)ceil(fabs(MaxX) - MinX));
+		Height = IL_MAX(1, (ILuint)ceil(fabs(MaxY) - MinY));
+	}
+
+	if (ilResizeImage(Rotated, Width, Height, Image->Depth, Image->Bpp, Image->Bpc) == IL_FALSE) {
 		ilCloseImage(Rotated);
 		return IL_FALSE;
 	}
 
-	ilClearImage_(Rotated);
-
-	ShortPtr = (ILushort*)iluCurImage->Data;
-	IntPtr = (ILuint*)iluCurImage->Data;
-	DblPtr = (ILdouble*)iluCurImage->Data;
-
-	//if (iluFilter == ILU_NEAREST) {
-	switch (iluCurImage->Bpc)
-	{
-		case 1:  // Byte-based (most images)
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-							}
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:  // Short-based
-			Image->Bps /= 2;   // Makes it easier to just
-			Rotated->Bps /= 2; //   cast to short.
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-							}
-						}
-					}
-				}
-			}
-			Image->Bps *= 2;
-			Rotated->Bps *= 2;
-			break;
-
-		case 4:  // Floats or 32-bit integers
-			Image->Bps /= 4;
-			Rotated->Bps /= 4;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
+	if (Image->Format == IL_COLOUR_INDEX) {  // Clearing would replace the palette.
+		imemclear(Rotated->Data, Rotated->SizeOfData);
+	}
+	else if (!ilClearImage_(Rotated)) {
+		ilCloseImage(Rotated);
+		return NULL;
+	}
+
+	PixSize = Image->Bpp * Image->Bpc;
+
+	for (z = 0; z < (ILint)Image->Depth; z++) {
+		RotData = Rotated->Data + z * Rotated->SizeOfPlane;
+		ImgData = Image->Data + z * Image->SizeOfPlane;
+
+		for (y = 0; y < (ILint)Rotated->Height; y++) {
+			for (x = 0; x < (ILint)Rotated->Width; x++) {
+				switch (Turns)
+				{
+					case 1:
+						SrcX = y;
+						SrcY = (ILint)Image->Height - 1 - x;
+						break;
+					case 2:
+						SrcX = (ILint)Image->Width - 1 - x;
+						SrcY = (ILint)Image->Height - 1 - y;
+						break;
+					case 3:
+						SrcX = (ILint)Image->Width - 1 - y;
+						SrcY = x;
+						break;
+					default:
 						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
 						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-							}
-						}
-					}
 				}
-			}
-			Image->Bps *= 4;
-			Rotated->Bps *= 4;
-			break;
-
-		case 8:  // Double or 64-bit integers
-			Image->Bps /= 8;
-			Rotated->Bps /= 8;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) { 
-					for (y = 0; y < (ILint)Image->Height; y++) { 
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-							}
-						}
-					}
+				if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
+					memcpy(RotData + y * Rotated->Bps + x * PixSize,
+						ImgData + (ILuint)SrcY * Image->Bps + (ILuint)SrcX * PixSize, PixSize);
 				}
 			}
-			Image->Bps *= 8;
-			Rotated->Bps *= 8;
-			break;
+		}
 	}
 
 	return Rotated;
-- 
2.43.0


From a1caf936407977fcf3e707ba4f17e9930e6c2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 083/185] fix: iluRotate made too large an image for angles
 between 90 and 270 degrees

---
 DevIL/src-ILU/src/ilu_rotate.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index 9834940..af6e87b 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -146,8 +146,8 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 
 	MinX = (ILint)IL_MIN(0, IL_MIN(Point1x, IL_MIN(Point2x, Point3x)));
 	MinY = (ILint)IL_MIN(0, IL_MIN(Point1y, IL_MIN(Point2y, Point3y)));
-	MaxX = (ILint)IL_MAX(Point1x, IL_MAX(Point2x, Point3x));
-	MaxY = (ILint)IL_MAX(Point1y, IL_MAX(Point2y, Point3y));
+	MaxX = (ILint)IL_MAX(0, IL_MAX(Point1x, IL_MAX(Point2x, Point3x)));
+	MaxY = (ILint)IL_MAX(0, IL_MAX(Point1y, IL_MAX(Point2y, Point3y)));
 
 	Rotated = (ILimage*)icalloc(1, sizeof(ILimage));
 	if (Rotated == NULL)
@@ -166,8 +166,8 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 		Height = Image->Height;
 	}
 	else {
-		Width = IL_MAX(1, (ILuint)ceil(fabs(MaxX) - MinX));
-		Height = IL_MAX(1, (ILuint)ceil(fabs(MaxY) - MinY));
+		Width = (ILuint)IL_MAX(1, MaxX - MinX);
+		Height = (ILuint)IL_MAX(1, MaxY - MinY);
 	}
 
 	if (ilResizeImage(Rotated, Width, Height, Image->Depth, Image->Bpp, Image->Bpc) == IL_FALSE) {
-- 
2.43.0


From 6d382e06f4607dc6611c682ae3ebe8e66f76c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 084/185] fix: iluConvolution looked for the region of the
 wrong image

---
 DevIL/src-ILU/src/ilu_filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 343f5c4..203ee08 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -1033,8 +1033,8 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 	ILubyte		*Data;
 	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
 	ILenum		Type = 0;
-	ILimage		*iluCurImage = ilGetCurImage();
 	
+	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
-- 
2.43.0


From d22cfab085248b3f381207a82c92f3052f6446ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 085/185] fix: scaling to a size of 0, taken as 1, did not
 notice that the image had that size

---
 DevIL/src-ILU/src/ilu_scale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index 42791df..432396d 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -55,14 +55,14 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Width == Width && iluCurImage->Height == Height && iluCurImage->Depth == Depth)
-		return IL_TRUE;
-
 	// A parameter of 0 is not valid.  Let's just assume that the user wanted a value of 1 instead.
 	if (Width == 0)  Width = 1;
 	if (Height == 0) Height = 1;
 	if (Depth == 0)  Depth = 1;
 
+	if (iluCurImage->Width == Width && iluCurImage->Height == Height && iluCurImage->Depth == Depth)
+		return IL_TRUE;
+
 	if ((iluCurImage->Width<Width) || (iluCurImage->Height<Height)) // only do special scale if there is some zoom?
 	{
 		switch (iluFilter)
-- 
2.43.0


From 199e5c4f26e9b01ebb6dcfc7d48451bba9643b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 086/185] fix: iluGetImageInfo left the cube map flags
 uninitialised

---
 DevIL/src-ILU/src/ilu_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-ILU/src/ilu_utilities.cpp b/DevIL/src-ILU/src/ilu_utilities.cpp
index 1e26560..cb7bb90 100644
--- a/DevIL/src-ILU/src/ilu_utilities.cpp
+++ b/DevIL/src-ILU/src/ilu_utilities.cpp
@@ -51,6 +51,7 @@ void ILAPIENTRY iluGetImageInfo(ILinfo *Info)
 	Info->Origin		= iluCurImage->Origin;
 	Info->Palette		= iluCurImage->Pal.Palette;
 	Info->PalType		= iluCurImage->Pal.PalType;
+	Info->CubeFlags		= iluCurImage->CubeFlags;
 	Info->PalSize		= iluCurImage->Pal.PalSize;
 	iGetIntegervImage(iluCurImage, IL_NUM_IMAGES,             
 	                        (ILint*)&Info->NumNext);
-- 
2.43.0


From 908d5b871cdb57dd46ade821e3a6544de0611115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 087/185] fix: a flip short of memory did nothing but reported
 success

---
 DevIL/src-IL/src/il_utility.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_utility.cpp b/DevIL/src-IL/src/il_utility.cpp
index e52480d..5c750fa 100644
--- a/DevIL/src-IL/src/il_utility.cpp
+++ b/DevIL/src-IL/src/il_utility.cpp
@@ -151,8 +151,7 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 	const ILuint blocks = size/block_size;
 	ILuint i;
 
-	ILubyte *block = (ILubyte*)ialloc(block_size);
-	if(block == NULL) return;
+	ILubyte block[4096];  // Must not fail for lack of memory.
 	for( i = 0; i < blocks; i++ ) {
 		memcpy(block,s1,block_size);
 		memcpy(s1,s2,block_size);
@@ -166,6 +165,5 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 		memcpy(s1,s2,i);
 		memcpy(s2,block,i);
 	}
-	ifree(block);
 	return;
 }
-- 
2.43.0


From fbb383309231ab56073d5f1a0403b5b76ffb9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 088/185] fix: PNM: comments, spacing, scaling by the maximum
 value, 16-bit samples and bit maps were read wrongly or out of bounds

---
 DevIL/src-IL/src/il_pnm.cpp | 462 +++++++++++++++---------------------
 1 file changed, 188 insertions(+), 274 deletions(-)

diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index dc87cc9..0086ff7 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -28,11 +28,11 @@ using namespace std;
 #define MAX_BUFFER 180  
 
 //@TODO: Get rid of these globals
-static ILbyte LineBuffer[MAX_BUFFER];
 static ILbyte SmallBuff[MAX_BUFFER];
 
-// Can't read direct bits from a lump yet
-ILboolean IsLump = IL_FALSE;
+static ILboolean	iGetPnmValue(ILuint *Value);
+static void		iScalePnm(ILimage *Image, ILuint MaxColour);
+static void		iPnmSwapShorts(ILimage *Image);
 
 
 //! Checks if the file specified in FileName is a valid .pnm file.
@@ -171,7 +171,7 @@ ILboolean iLoadPnmInternal()
 	PPMINFO		Info;
 //	ILuint		LineInc = 0, SmallInc = 0;
 
-	Info.Type = 0;
+	memset(&Info, 0, sizeof(Info));
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -200,10 +200,6 @@ ILboolean iLoadPnmInternal()
 			break;
 		case '4':
 			Info.Type = IL_PBM_BINARY;
-			if (IsLump) {
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return IL_FALSE;
-			}
 			break;
 		case '5':
 			Info.Type = IL_PGM_BINARY;
@@ -220,18 +216,9 @@ ILboolean iLoadPnmInternal()
 	}
 	
 	// Retrieve the width and height
-	if (iGetWord(IL_FALSE) == IL_FALSE)
+	if (!iGetPnmValue(&Info.Width) || !iGetPnmValue(&Info.Height))
 		return IL_FALSE;
-	Info.Width = atoi((const char*)SmallBuff);
-	if (Info.Width == 0) {
-		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
-	}
-
-	if (iGetWord(IL_FALSE) == IL_FALSE)
-		return IL_FALSE;
-	Info.Height = atoi((const char*)SmallBuff);
-	if (Info.Height == 0) {
+	if (Info.Width == 0 || Info.Height == 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -239,9 +226,9 @@ ILboolean iLoadPnmInternal()
 	// Retrieve the maximum colour component value
 	if (Info.Type != IL_PBM_ASCII && Info.Type != IL_PBM_BINARY)
 	{
-		if (iGetWord(IL_TRUE) == IL_FALSE)
+		if (!iGetPnmValue(&Info.MaxColour))
 			return IL_FALSE;
-		if ((Info.MaxColour = atoi((const char*)SmallBuff)) == 0)
+		if (Info.MaxColour == 0 || Info.MaxColour > 65535)
 		{
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
@@ -252,23 +239,16 @@ ILboolean iLoadPnmInternal()
 		Info.MaxColour = 1;
 	}
 	
-	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
-		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
-	{
-		if (Info.Type == IL_PGM_ASCII)
-		{
-			Info.Bpp = Info.MaxColour < 256 ? 1 : 2;
-		}
-		else
-		{
-			Info.Bpp = 1;
-		}
-	}
-	else
-	{
+	if (Info.Type == IL_PPM_ASCII || Info.Type == IL_PPM_BINARY)
 		Info.Bpp = 3;
-	}
-	
+	else
+		Info.Bpp = 1;
+
+	if (!ilTexImage(Info.Width, Info.Height, 1, Info.Bpp, Info.Bpp == 1 ? IL_LUMINANCE : IL_RGB,
+		Info.MaxColour > 255 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+		return IL_FALSE;
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+
 	switch (Info.Type)
 	{
 		case IL_PBM_ASCII:
@@ -289,99 +269,119 @@ ILboolean iLoadPnmInternal()
 			return IL_FALSE;
 	}
 
-	if (PmImage == NULL)
-	{
-	    iCurImage->Format = ilGetFormatBpp(iCurImage->Bpp);
-	    ilSetError(IL_FILE_READ_ERROR);
-	    return IL_FALSE;
-	}
-
-	// Is this conversion needed?  Just 0's and 1's shows up as all black
-	if (Info.Type == IL_PBM_ASCII)
-	{
-		PbmMaximize(PmImage);
-	}
-
-	if (Info.MaxColour > 255)
-		PmImage->Type = IL_UNSIGNED_SHORT;
-	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
-		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
-		PmImage->Format = IL_LUMINANCE;
-	else
-		PmImage->Format = IL_RGB;
-	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
 	if (PmImage == NULL)
 		return IL_FALSE;
+	iScalePnm(iCurImage, Info.MaxColour);
+
 	return ilFixImage();
 }
 
 
-
-ILimage *ilReadAsciiPpm(PPMINFO *Info)
+// Brings the values, which reach up to MaxColour in the file, to the full range.
+static void iScalePnm(ILimage *Image, ILuint MaxColour)
 {
-	ILint	LineInc = 0, SmallInc = 0, DataInc = 0, Size;
-//	ILint	BytesRead = 0;
+	ILuint		i;
+	ILushort	*ShortPtr;
 
-	if (Info->MaxColour > 255)
-		Info->Bpp *= 2;
+	if (Image->Type == IL_UNSIGNED_BYTE) {
+		if (MaxColour == 255)
+			return;
+		for (i = 0; i < Image->SizeOfData; i++)
+			Image->Data[i] = (ILubyte)((IL_MIN(Image->Data[i], MaxColour) * 255 + MaxColour / 2) / MaxColour);
+	}
+	else {
+		if (MaxColour == 65535)
+			return;
+		ShortPtr = (ILushort*)Image->Data;
+		for (i = 0; i < Image->SizeOfData / 2; i++)
+			ShortPtr[i] = (ILushort)((IL_MIN(ShortPtr[i], MaxColour) * 65535 + MaxColour / 2) / MaxColour);
+	}
+}
 
-	Size = Info->Width * Info->Height * Info->Bpp;
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+// Reads an unsigned number of the header and the single character behind it.
+static ILboolean iGetPnmValue(ILuint *Value)
+{
+	ILuint i;
+
+	if (iGetWord(IL_FALSE) == IL_FALSE)
 		return IL_FALSE;
+	for (i = 0; SmallBuff[i]; i++) {
+		if (!isdigit(SmallBuff[i])) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info->MaxColour > 255)
-		iCurImage->Type = IL_UNSIGNED_SHORT;
+	*Value = i > 9 ? 0xFFFFFFFF : (ILuint)atoi((const char*)SmallBuff);
 
-	while (DataInc < Size) {  // && !feof(File)) {
-		LineInc = 0;
+	return IL_TRUE;
+}
 
-		if (iFgets((char *)LineBuffer, MAX_BUFFER) == NULL) {
-			//ilSetError(IL_ILLEGAL_FILE_VALUE);
-			//return NULL;
-			//return iCurImage;
-			break;
-		}
-		if (LineBuffer[0] == '#') {  // Comment
-			continue;
-		}
 
-		while ((LineBuffer[LineInc] != NUL) && (LineBuffer[LineInc] != '\n')) {
+// How many bytes there are from the current position up to the end.
+static ILuint iPnmBytesLeft()
+{
+	ILuint Pos = itell(), End;
+
+	iseek(0, IL_SEEK_END);
+	End = itell();
+	iseek(Pos, IL_SEEK_SET);
+
+	return End > Pos ? End - Pos : 0;
+}
 
-			SmallInc = 0;
-			while (!isalnum(LineBuffer[LineInc])) {  // Skip any whitespace
-				LineInc++;
-			}
-			while (isalnum(LineBuffer[LineInc])) {
-				SmallBuff[SmallInc] = LineBuffer[LineInc];
-				SmallInc++;
-				LineInc++;
-			}
-			SmallBuff[SmallInc] = NUL;
-			iCurImage->Data[DataInc] = atoi((const char*)SmallBuff);  // Convert from string to colour
 
-			// PSP likes to put whitespace at the end of lines...figures. =/
-			while (!isalnum(LineBuffer[LineInc]) && LineBuffer[LineInc] != NUL) {  // Skip any whitespace
-				LineInc++;
+ILimage *ilReadAsciiPpm(PPMINFO *Info)
+{
+	ILuint		Left = iPnmBytesLeft(), i, NumSamples, Value;
+	ILint		Current;
+	ILboolean	Started;
+
+	NumSamples = Info->Width * Info->Height * Info->Bpp;
+	for (i = 0; i < NumSamples; i++) {
+		Value = 0;
+		Started = IL_FALSE;
+		for (;;) {
+			if (Left == 0)
+				break;
+			Left--;
+			if ((Current = igetc()) == IL_EOF)
+				return NULL;
+			if (isdigit(Current)) {
+				Started = IL_TRUE;
+				Value = IL_MIN(Value * 10 + (Current - '0'), 65535);
+				if (Info->Type == IL_PBM_ASCII)  // These need no whitespace in between.
+					break;
+			}
+			else {
+				if (Current == '#') {  // Comment
+					while (Left > 0 && Current != '\n') {
+						Left--;
+						if ((Current = igetc()) == IL_EOF)
+							return NULL;
+					}
+				}
+				if (Started)
+					break;
+				if (!isspace(Current)) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return NULL;
+				}
 			}
+		}
 
-			// We should set some kind of state flag that enables this
-			//Image->Data[DataInc] *= (ILubyte)(255 / Info->MaxColour);  // Scales to 0-255		
-			if (Info->MaxColour > 255)
-				DataInc++;
-			DataInc++;
+		// If we read less than what we should have...
+		if (!Started) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return NULL;
 		}
-	}
 
-	// If we read less than what we should have...
-	if (DataInc < Size) {
-		//ilCloseImage(iCurImage);
-		//ilSetCurImage(NULL);
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return NULL;
+		if (Info->Type == IL_PBM_ASCII)  // A 1 is black.
+			iCurImage->Data[i] = Value ? 0 : 1;
+		else if (iCurImage->Type == IL_UNSIGNED_SHORT)
+			((ILushort*)iCurImage->Data)[i] = (ILushort)Value;
+		else
+			iCurImage->Data[i] = (ILubyte)IL_MIN(Value, 255);
 	}
 
 	return iCurImage;
@@ -390,47 +390,26 @@ ILimage *ilReadAsciiPpm(PPMINFO *Info)
 
 ILimage *ilReadBinaryPpm(PPMINFO *Info)
 {
-	ILuint Size;
-
-	Size = Info->Width * Info->Height * Info->Bpp;
-
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	/* 4/3/2007 Dario Meloni
-	 Here it seems we have eaten too much bytes and it is needed to fix 
-	 the starting point
-	 works well on various images
-	
-	No more need of this workaround. fixed iGetWord
-	iseek(0,IL_SEEK_END);
-	ILuint size = itell();
-	iseek(size-Size,IL_SEEK_SET);
-	*/
-	if (iread(iCurImage->Data, 1, Size) != Size) {
-		ilCloseImage(iCurImage);	
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
 		return NULL;
-	}
+	if (iCurImage->Type == IL_UNSIGNED_SHORT)
+		iPnmSwapShorts(iCurImage);
+
 	return iCurImage;
 }
 
 
 ILimage *ilReadBitPbm(PPMINFO *Info)
 {
-	ILuint	m, j, x, CurrByte;
-
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	ILuint	m, j, x;
+	ILint	CurrByte;
 
 	x = 0;
 	for (j = 0; j < iCurImage->SizeOfData;) {
-		CurrByte = igetc();
+		if ((CurrByte = igetc()) == IL_EOF)
+			return NULL;
 		for (m = 128; m > 0 && x < Info->Width; m >>= 1, ++x, ++j) {
-			iCurImage->Data[j] = (CurrByte & m)?255:0;
+			iCurImage->Data[j] = (CurrByte & m) ? 0 : 1;  // A 1 is black.
 		}
 		if (x == Info->Width)
 			x = 0;
@@ -440,122 +419,98 @@ ILimage *ilReadBitPbm(PPMINFO *Info)
 }
 
 
+// The samples of two bytes are stored with the most significant one first.
+static void iPnmSwapShorts(ILimage *Image)
+{
+	ILuint i;
+
+	for (i = 0; i < Image->SizeOfData / 2; i++)
+		BigUShort((ILushort*)Image->Data + i);
+}
+
+
 ILboolean ilReadPam()
 {
 	PPMINFO Info;
 	string TempStr;
-	ILuint Size;
 
 	memset(&Info, 0, sizeof(PPMINFO));
 
-	while (!ieof())
+	for (;;)
 	{
 		if (iGetWord(IL_FALSE) == IL_FALSE)
 			return IL_FALSE;
-		if (!strncmp((const char*)SmallBuff, "ENDHDR", 6))
+		TempStr = (char*)SmallBuff;  // Save the first identifier of the line
+		if (TempStr == "ENDHDR")
 			break;
 
-		TempStr = (char*)SmallBuff;  // Save the first identifier of the line
-		if (iGetWord(IL_FALSE) == IL_FALSE)
-			return IL_FALSE;
-		if (!strncmp(TempStr.c_str(), "WIDTH", 5))
-			Info.Width = atoi((const char*)SmallBuff);
-		else if (!strncmp(TempStr.c_str(), "HEIGHT", 6))
-			Info.Height = atoi((const char*)SmallBuff);
-		else if (!strncmp(TempStr.c_str(), "DEPTH", 5))
-			Info.Depth = atoi((const char*)SmallBuff);
-		else if (!strncmp(TempStr.c_str(), "MAXVAL", 6))
-			Info.MaxColour = atoi((const char*)SmallBuff);
-		else if (!strncmp(TempStr.c_str(), "TUPLTYPE", 8)) {
+		if (TempStr == "WIDTH") {
+			if (!iGetPnmValue(&Info.Width))
+				return IL_FALSE;
+		}
+		else if (TempStr == "HEIGHT") {
+			if (!iGetPnmValue(&Info.Height))
+				return IL_FALSE;
+		}
+		else if (TempStr == "DEPTH") {
+			if (!iGetPnmValue(&Info.Depth))
+				return IL_FALSE;
+		}
+		else if (TempStr == "MAXVAL") {
+			if (!iGetPnmValue(&Info.MaxColour))
+				return IL_FALSE;
+		}
+		else if (TempStr == "TUPLTYPE") {
+			if (iGetWord(IL_FALSE) == IL_FALSE)
+				return IL_FALSE;
 			string tmp = (char*)SmallBuff;
 			Info.TuplType = DecodeTupleType(tmp);
 		}
+		else {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
 	}
 
-	//@TODO: Handle other max colors and tuple types
-	if (Info.Width == 0 || Info.Height == 0 || Info.Depth == 0 || Info.Depth > 4 || Info.TuplType == 0)
+	if (Info.Width == 0 || Info.Height == 0 || Info.Depth == 0 || Info.Depth > 4 || Info.TuplType == 0
+		|| Info.MaxColour == 0 || Info.MaxColour > 65535)
 	{
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	switch (Info.MaxColour)
-	{
-		case 255:
-			Info.Type = IL_UNSIGNED_BYTE;
-			Size = 1;
-			break;
-		case 65535:
-			Info.Type = IL_UNSIGNED_SHORT;
-			Size = 2;
-			break;
-		default:
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-	}
 
 	switch (Info.TuplType)
 	{
+		case PAM_BW:
 		case PAM_GRAY:
-			if (Info.Depth != 1)
-			{
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
-				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_LUMINANCE;
+			Info.Bpp = 1;
 			break;
-
+		case PAM_BW_ALPHA:
 		case PAM_GRAY_ALPHA:
-			if (Info.Depth != 2)
-			{
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
-				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_LUMINANCE_ALPHA;
+			Info.Bpp = 2;
 			break;
-
 		case PAM_RGB:
-			if (Info.Depth != 3)
-			{
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
-				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_RGB;
+			Info.Bpp = 3;
 			break;
-
 		case PAM_RGB_ALPHA:
-			if (Info.Depth != 4)
-			{
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
-				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_RGBA;
+			Info.Bpp = 4;
 			break;
-
-		default:
-			//@TODO: Handle black and white case
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	if (iread(iCurImage->Data, 1, Size) != Size)
+	if (Info.Depth != Info.Bpp)
 	{
-		ilCloseImage(iCurImage);
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
+	if (!ilTexImage(Info.Width, Info.Height, 1, Info.Bpp, ilGetFormatBpp(Info.Bpp),
+		Info.MaxColour > 255 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+		return IL_FALSE;
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+
+	if (ilReadBinaryPpm(&Info) == NULL)
+		return IL_FALSE;
+	iScalePnm(iCurImage, Info.MaxColour);
+
 	return ilFixImage();
 }
 
@@ -579,62 +534,32 @@ ILint DecodeTupleType(string &TupleStr)
 }
 
 
+// Reads the next word of the header into SmallBuff and the single whitespace character that ends it.
 ILboolean iGetWord(ILboolean final)
 {
 	ILint WordPos = 0;
-	ILint Current = 0;
-	ILboolean Started = IL_FALSE;
-	ILboolean Looping = IL_TRUE;
+	ILint Current;
 
-	if (ieof())
-		return IL_FALSE;
-
-	while (Looping)
+	for (;;)
 	{
-		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
-		{
-			if (WordPos >= MAX_BUFFER)  // We have hit the maximum line length.
-				return IL_FALSE;
-
-			if (!isalnum(Current) && Current != '_') {
-				if (Started) {
-					Looping = IL_FALSE;
-					break;
-				}
-				continue;
-			}
-
-			if (Looping)
-				SmallBuff[WordPos++] = Current;
-		}
-		if (Current == IL_EOF)
-			return IL_FALSE;
-		SmallBuff[WordPos] = 0; // 08-17-2008 - was NULL, changed to avoid warning
-		if (final == IL_TRUE)
-	        break;
-
-		if (!Looping)
-			break;
-
+		Current = igetc();
 		if (Current == '#') {  // '#' is a comment...read until end of line
 			while ((Current = igetc()) != IL_EOF && Current != '\n');
 		}
-
-		// Get rid of any erroneous spaces
-		while ((Current = igetc()) != IL_EOF) {
-			if (Current != ' ')
+		if (Current == IL_EOF)
+			return IL_FALSE;
+		if (isspace(Current)) {
+			if (WordPos > 0)
 				break;
+			continue;
 		}
-		iseek(-1, IL_SEEK_CUR);
-
-		if (WordPos > 0)
-			break;
-	}
-
-	if (Current == -1 || WordPos == 0) {
-		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
+		if (WordPos >= MAX_BUFFER - 1) {  // We have hit the maximum line length.
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
+		SmallBuff[WordPos++] = Current;
 	}
+	SmallBuff[WordPos] = 0;
 
 	return IL_TRUE;
 }
@@ -851,15 +776,4 @@ ILboolean iSavePnmInternal()
 }
 
 
-// Converts a .pbm to something viewable.
-void PbmMaximize(ILimage *Image)
-{
-	ILuint i = 0;
-	for (i = 0; i < Image->SizeOfPlane; i++)
-		if (Image->Data[i] == 1)
-			Image->Data[i] = 0xFF;
-	return;
-}
-
-
 #endif//IL_NO_PNM
-- 
2.43.0


From fb94006310ec237093739841d4dbcf68f6b6534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 089/185] fix: PCX: padded lines, bit maps of any width and
 version 3 and 4 files were refused, read wrongly or out of bounds

---
 DevIL/src-IL/include/il_pcx.h |   1 +
 DevIL/src-IL/src/il_pcx.cpp   | 226 ++++++++++++----------------------
 2 files changed, 80 insertions(+), 147 deletions(-)

diff --git a/DevIL/src-IL/include/il_pcx.h b/DevIL/src-IL/include/il_pcx.h
index 3b161c3..8c8a40f 100644
--- a/DevIL/src-IL/include/il_pcx.h
+++ b/DevIL/src-IL/include/il_pcx.h
@@ -43,6 +43,7 @@ typedef struct PCXHEAD
 #endif
 
 // For checking and reading
+ILboolean iGetPcxHead(PCXHEAD *Head);
 ILboolean iIsValidPcx(void);
 ILboolean iCheckPcx(PCXHEAD *Header);
 ILboolean iLoadPcxInternal(void);
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 4c96d81..63d2568 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -83,7 +83,8 @@ ILboolean iGetPcxHead(PCXHEAD *Head)
 	Head->PaletteInfo = GetLittleUShort();
 	Head->HScreenSize = GetLittleUShort();
 	Head->VScreenSize = GetLittleUShort();
-	iread(Head->Filler, 1, 54);
+	if (iread(Head->Filler, 1, 54) != 54)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
@@ -93,10 +94,13 @@ ILboolean iGetPcxHead(PCXHEAD *Head)
 ILboolean iIsValidPcx()
 {
 	PCXHEAD Head;
+	ILuint	Pos = itell();
 
-	if (!iGetPcxHead(&Head))
+	if (!iGetPcxHead(&Head)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(PCXHEAD), IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckPcx(&Head);
 }
@@ -115,21 +119,16 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 	// Try to support all pcx versions, as they only differ in allowed formats...
 	// Let's hope it works.
 	if(Header->Version != 5 && Header->Version != 0 && Header->Version != 2 &&
-		 Header->VDpi != 3 && Header->VDpi != 4)
+		 Header->Version != 3 && Header->Version != 4)
 		return IL_FALSE;
 
-	// See if the padding size is correct
+	if (Header->Xmax < Header->Xmin || Header->Ymax < Header->Ymin)
+		return IL_FALSE;
+
+	// See if the lines have room for all pixels - some writers pad them further than to an even size.
 	Test = Header->Xmax - Header->Xmin + 1;
-	if (Header->Bpp >= 8) {
-		if (Test & 1) {
-			if (Header->Bps != Test + 1)
-				return IL_FALSE;
-		}
-		else {
-			if (Header->Bps != Test)  // No padding
-				return IL_FALSE;
-		}
-	}
+	if ((ILuint)Header->Bps * 8 < Test * Header->Bpp)
+		return IL_FALSE;
 
 	/* for (i = 0; i < 54; i++) { useless check
 		if (Header->Filler[i] != 0)
@@ -208,6 +207,31 @@ ILboolean iLoadPcxInternal()
 }
 
 
+// Reads one scan line with all its planes.
+static ILboolean iReadPcxLine(ILubyte *ScanLine, ILuint Size)
+{
+	ILubyte	HeadByte, Colour;
+	ILuint	x = 0, Run;
+
+	while (x < Size) {
+		if (iread(&HeadByte, 1, 1) != 1)
+			return IL_FALSE;
+		if ((HeadByte & 0xC0) == 0xC0) {
+			if (iread(&Colour, 1, 1) != 1)
+				return IL_FALSE;
+			Run = IL_MIN((ILuint)(HeadByte & 0x3F), Size - x);
+			memset(ScanLine + x, Colour, Run);
+			x += Run;
+		}
+		else {
+			ScanLine[x++] = HeadByte;
+		}
+	}
+
+	return IL_TRUE;
+}
+
+
 // Internal function to uncompress the .pcx (all .pcx files are rle compressed)
 ILboolean iUncompressPcx(PCXHEAD *Header)
 {
@@ -218,9 +242,9 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 	//each plane within each scan line."
 	//This is now handled correctly (hopefully ;) )
 
-	ILubyte	ByteHead, Colour, *ScanLine /* For all planes */;
+	ILubyte	ByteHead, *ScanLine /* For all planes */;
 	ILuint ScanLineSize;
-	ILuint	c, i, x, y;
+	ILuint	c, x, y;
 
 	if (Header->Bpp < 8) {
 		/*ilSetError(IL_FORMAT_NOT_SUPPORTED);
@@ -278,30 +302,10 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 		iPreCache(iCurImage->SizeOfData / 4);
 
 	for (y = 0; y < iCurImage->Height; y++) {
-		x = 0;
 		//read scanline
-		while (x < ScanLineSize) {
-			if (iread(&ByteHead, 1, 1) != 1) {
-				iUnCache();
-				goto file_read_error;
-			}
-			if ((ByteHead & 0xC0) == 0xC0) {
-				ByteHead &= 0x3F;
-				if (iread(&Colour, 1, 1) != 1) {
-					iUnCache();
-					goto file_read_error;
-				}
-				if (x + ByteHead > ScanLineSize) {
-					iUnCache();
-					goto file_read_error;
-				}
-				for (i = 0; i < ByteHead; i++) {
-					ScanLine[x++] = Colour;
-				}
-			}
-			else {
-				ScanLine[x++] = ByteHead;
-			}
+		if (!iReadPcxLine(ScanLine, ScanLineSize)) {
+			iUnCache();
+			goto file_read_error;
 		}
 
 		//convert plane-separated scanline into index, rgb or rgba pixels.
@@ -352,130 +356,58 @@ file_read_error:
 
 ILboolean iUncompressSmall(PCXHEAD *Header)
 {
-	ILuint	i = 0, j, k, c, d, x, y, Bps;
-	ILubyte	HeadByte, Colour, Data = 0, *ScanLine;
+	ILuint	c, x, y, ScanLineSize;
+	ILubyte	*ScanLine, Value;
 
-	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (Header->Bpp != 1) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	switch (Header->NumPlanes)
-	{
-		case 1:
-			iCurImage->Format = IL_LUMINANCE;
-			break;
-		case 4:
-			iCurImage->Format = IL_COLOUR_INDEX;
-			break;
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
+	if (Header->NumPlanes != 1 && Header->NumPlanes != 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
 	}
 
-	if (Header->NumPlanes == 1 && Header->Bpp == 1) {
-		for (j = 0; j < iCurImage->Height; j++) {
-			i = 0; //number of written pixels
-			while (i < iCurImage->Width) {
-				if (iread(&HeadByte, 1, 1) != 1)
-					return IL_FALSE;
-				if (HeadByte >= 192) {
-					HeadByte -= 192;
-					if (iread(&Data, 1, 1) != 1)
-						return IL_FALSE;
-
-					for (c = 0; c < HeadByte; c++) {
-						k = 128;
-						for (d = 0; d < 8 && i < iCurImage->Width; d++) {
-							iCurImage->Data[j * iCurImage->Width + i++] = ((Data & k) != 0 ? 255 : 0);
-							k >>= 1;
-						}
-					}
-				}
-				else {
-					k = 128;
-					for (c = 0; c < 8 && i < iCurImage->Width; c++) {
-						iCurImage->Data[j * iCurImage->Width + i++] = ((HeadByte & k) != 0 ? 255 : 0);
-						k >>= 1;
-					}
-				}
-			}
-
-			//if(Data != 0)
-			//changed 2003-09-01:
-			//There has to be an even number of bytes per line in a pcx.
-			//One byte can hold up to 8 bits, so Width/8 bytes
-			//are needed to hold a 1 bit per pixel image line.
-			//If Width/8 is even no padding is needed,
-			//one pad byte has to be read otherwise.
-			//(let's hope the above is true ;-))
-			if(!((iCurImage->Width >> 3) & 0x1))
-				igetc();	// Skip pad byte
-		}
+	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1,
+		Header->NumPlanes == 1 ? IL_LUMINANCE : IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
+		return IL_FALSE;
 	}
-	else if (Header->NumPlanes == 4 && Header->Bpp == 1){   // 4-bit images
-		//changed decoding 2003-09-10 (was buggy)...could need a speedup
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-		Bps = Header->Bps * Header->NumPlanes * 8;
+	if (Header->NumPlanes == 4) {
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
-		ScanLine = (ILubyte*)ialloc(Bps);
-		if (iCurImage->Pal.Palette == NULL || ScanLine == NULL) {
-			ifree(ScanLine);
-			ifree(iCurImage->Pal.Palette);
+		if (iCurImage->Pal.Palette == NULL)
 			return IL_FALSE;
-		}
 		memcpy(iCurImage->Pal.Palette, Header->ColMap, 16 * 3);
 		iCurImage->Pal.PalSize = 16 * 3;
 		iCurImage->Pal.PalType = IL_PAL_RGB24;
+	}
 
-		memset(iCurImage->Data, 0, iCurImage->SizeOfData);
+	ScanLineSize = (ILuint)Header->Bps * Header->NumPlanes;
+	ScanLine = (ILubyte*)ialloc(ScanLineSize);
+	if (ScanLine == NULL)
+		return IL_FALSE;
 
-		if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
-			iPreCache(iCurImage->SizeOfData / 4);
-		for (y = 0; y < iCurImage->Height; y++) {
-			x = 0;
-			while (x < Bps) {
-				if (iread(&HeadByte, 1, 1) != 1) {
-					iUnCache();
-					ifree(ScanLine);
-					return IL_FALSE;
-				}
-				if ((HeadByte & 0xC0) == 0xC0) {
-					HeadByte &= 0x3F;
-					if (iread(&Colour, 1, 1) != 1) {
-						iUnCache();
-						ifree(ScanLine);
-						return IL_FALSE;
-					}
-					for (i = 0; i < HeadByte; i++) {
-						k = 128;
-						for (j = 0; j < 8 && x < Bps; j++) {
-							ScanLine[x++] = (Colour & k)?1:0;
-							k >>= 1;
-						}
-					}
-				}
-				else {
-					k = 128;
-					for (j = 0; j < 8 && x < Bps; j++) {
-						ScanLine[x++] = (HeadByte & k)?1:0;
-						k >>= 1;
-					}
-				}
-			}
+	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
+		iPreCache(iCurImage->SizeOfData / 4);
+	for (y = 0; y < iCurImage->Height; y++) {
+		if (!iReadPcxLine(ScanLine, ScanLineSize)) {
+			iUnCache();
+			ifree(ScanLine);
+			return IL_FALSE;
+		}
 
-			for (x = 0; x < iCurImage->Width; x++) {  // 'Cleverly' ignores the pad bytes. ;)
-				for(c = 0; c < Header->NumPlanes; c++)
-					iCurImage->Data[y * iCurImage->Width + x] |= ScanLine[x + c*Header->Bps*8] << c;
-			}
+		for (x = 0; x < iCurImage->Width; x++) {  // 'Cleverly' ignores the pad bytes. ;)
+			Value = 0;
+			for (c = 0; c < Header->NumPlanes; c++)
+				Value |= ((ScanLine[c * Header->Bps + (x >> 3)] >> (7 - (x & 7))) & 1) << c;
+			if (Header->NumPlanes == 1)
+				Value = Value ? 255 : 0;
+			iCurImage->Data[y * iCurImage->Width + x] = Value;
 		}
-		iUnCache();
-		ifree(ScanLine);
-	}
-	else {
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
 	}
+	iUnCache();
+	ifree(ScanLine);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From f199d6ac96d0889ed5bd8297a6353dae612a91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 090/185] fix: DCX could only be loaded by file name and its
 pictures were never found; the Scitex loader was not reachable by type

---
 DevIL/src-IL/include/il_dcx.h |  29 +--
 DevIL/src-IL/src/il_dcx.cpp   | 373 ++++------------------------------
 DevIL/src-IL/src/il_io.cpp    |  59 ++++++
 3 files changed, 94 insertions(+), 367 deletions(-)

diff --git a/DevIL/src-IL/include/il_dcx.h b/DevIL/src-IL/include/il_dcx.h
index c8522b7..fcefa28 100644
--- a/DevIL/src-IL/include/il_dcx.h
+++ b/DevIL/src-IL/include/il_dcx.h
@@ -15,38 +15,11 @@
 #define DCX_H
 
 #include "il_internal.h"
+#include "il_pcx.h"
 
 
-#ifdef _WIN32
-#pragma pack(push, packed_struct, 1)
-#endif
-typedef struct DCXHEAD
-{
-	ILubyte		Manufacturer;
-	ILubyte		Version;
-	ILubyte		Encoding;
-	ILubyte		Bpp;
-	ILushort	Xmin, Ymin, Xmax, Ymax;
-	ILushort	HDpi;
-	ILushort	VDpi;
-	ILubyte		ColMap[48];
-	ILubyte		Reserved;
-	ILubyte		NumPlanes;
-	ILushort	Bps;
-	ILushort	PaletteInfo;
-	ILushort	HScreenSize;
-	ILushort	VScreenSize;
-	ILubyte		Filler[54];
-} IL_PACKSTRUCT DCXHEAD;
-#ifdef _WIN32
-#pragma pack(pop, packed_struct)
-#endif
-
 // For checking and reading
 ILboolean iIsValidDcx(void);
-ILboolean iCheckDcx(DCXHEAD *Header);
 ILboolean iLoadDcxInternal(void);
-ILimage*  iUncompressDcx(DCXHEAD *Header);
-ILimage*  iUncompressDcxSmall(DCXHEAD *Header);
 
 #endif//PCX_H
diff --git a/DevIL/src-IL/src/il_dcx.cpp b/DevIL/src-IL/src/il_dcx.cpp
index efe1314..84b3a7a 100644
--- a/DevIL/src-IL/src/il_dcx.cpp
+++ b/DevIL/src-IL/src/il_dcx.cpp
@@ -63,24 +63,6 @@ ILboolean ilIsValidDcxL(const void *Lump, ILuint Size)
 }
 
 
-// Internal function obtain the .dcx header from the current file.
-ILboolean iGetDcxHead(DCXHEAD *Head)
-{
-	Head->Xmin = GetLittleUShort();
-	Head->Ymin = GetLittleUShort();
-	Head->Xmax = GetLittleUShort();
-	Head->Ymax = GetLittleUShort();
-	Head->HDpi = GetLittleUShort();
-	Head->VDpi = GetLittleUShort();
-	Head->Bps = GetLittleUShort();
-	Head->PaletteInfo = GetLittleUShort();
-	Head->HScreenSize = GetLittleUShort();
-	Head->VScreenSize = GetLittleUShort();
-
-	return IL_TRUE;
-}
-
-
 // Internal function to get the header and check it.
 ILboolean iIsValidDcx()
 {
@@ -94,39 +76,6 @@ ILboolean iIsValidDcx()
 }
 
 
-// Internal function used to check if the HEADER is a valid .dcx header.
-// Should we also do a check on Header->Bpp?
-ILboolean iCheckDcx(DCXHEAD *Header)
-{
-	ILuint	Test, i;
-
-	// There are other versions, but I am not supporting them as of yet.
-	//	Got rid of the Reserved check, because I've seen some .dcx files with invalid values in it.
-	if (Header->Manufacturer != 10 || Header->Version != 5 || Header->Encoding != 1/* || Header->Reserved != 0*/)
-		return IL_FALSE;
-
-	// See if the padding size is correct
-	Test = Header->Xmax - Header->Xmin + 1;
-	/*if (Header->Bpp >= 8) {
-		if (Test & 1) {
-			if (Header->Bps != Test + 1)
-				return IL_FALSE;
-		}
-		else {
-			if (Header->Bps != Test)  // No padding
-				return IL_FALSE;
-		}
-	}*/
-
-	for (i = 0; i < 54; i++) {
-		if (Header->Filler[i] != 0)
-			return IL_FALSE;
-	}
-
-	return IL_TRUE;
-}
-
-
 //! Reads a .dcx file
 ILboolean ilLoadDcx(ILconst_string FileName)
 {
@@ -168,11 +117,11 @@ ILboolean ilLoadDcxL(const void *Lump, ILuint Size) {
 }
 
 
-// Internal function used to load the .dcx.
+// Internal function used to load the .dcx, a list of .pcx files.
 ILboolean iLoadDcxInternal()
 {
-	DCXHEAD	Header;
-	ILuint	Signature, i, Entries[1024], Num = 0;
+	PCXHEAD	Header;
+	ILuint	Start, Entries[1024], i, Num;
 	ILimage	*Image, *Base;
 
 	if (iCurImage == NULL) {
@@ -180,306 +129,52 @@ ILboolean iLoadDcxInternal()
 		return IL_FALSE;
 	}
 
-	if (!iIsValidDcx())
+	Start = itell();
+	if (!iIsValidDcx()) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
-	iread(&Signature, 1, 4);
+	}
+	GetLittleUInt();
 
-	do {
+	// The list of up to 1023 entries ends with a 0.
+	for (Num = 0; Num < 1024; Num++) {
 		if (iread(&Entries[Num], 1, 4) != 4)
 			return IL_FALSE;
-		Num++;
-	} while (Entries[Num-1] != 0);
-
-	for (i = 0; i < Num; i++) {
-		iseek(Entries[i], IL_SEEK_SET);
-		iGetDcxHead(&Header);
-		/*if (!iCheckDcx(&Header)) {
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-		}*/
-
-		Image = iUncompressDcx(&Header);
-		if (Image == NULL)
-			return IL_FALSE;
-
-		if (i == 0) {
-			ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data);
-			Base = iCurImage;
-			Base->Origin = IL_ORIGIN_UPPER_LEFT;
-			ilCloseImage(Image);
-		}
-		else {
-			iCurImage->Next = Image;
-			iCurImage = iCurImage->Next;
-		}
-	}
-
-	return ilFixImage();
-}
-
-
-// Internal function to uncompress the .dcx (all .dcx files are rle compressed)
-ILimage *iUncompressDcx(DCXHEAD *Header)
-{
-	ILubyte		ByteHead, Colour, *ScanLine = NULL /* Only one plane */;
-	ILuint		c, i, x, y;//, Read = 0;
-	ILimage		*Image = NULL;
-
-	if (Header->Bpp < 8) {
-		/*ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;*/
-		return iUncompressDcxSmall(Header);
-	}
-
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
-	if (Image == NULL)
-		return NULL;
-	/*if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}*/
-	Image->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	ScanLine = (ILubyte*)ialloc(Header->Bps);
-	if (ScanLine == NULL)
-		goto dcx_error;
-
-	switch (Image->Bpp)
-	{
-		case 1:
-			Image->Format = IL_COLOUR_INDEX;
-			Image->Pal.PalType = IL_PAL_RGB24;
-			Image->Pal.PalSize = 256 * 3; // Need to find out for sure...
-			Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
-			if (Image->Pal.Palette == NULL)
-				goto dcx_error;
-			break;
-		//case 2:  // No 16-bit images in the dcx format!
-		case 3:
-			Image->Format = IL_RGB;
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalSize = 0;
-			Image->Pal.PalType = IL_PAL_NONE;
-			break;
-		case 4:
-			Image->Format = IL_RGBA;
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalSize = 0;
-			Image->Pal.PalType = IL_PAL_NONE;
+		UInt(&Entries[Num]);
+		if (Entries[Num] == 0)
 			break;
-
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			goto dcx_error;
 	}
-
-
-		/*StartPos = itell();
-		Compressed = (ILubyte*)ialloc(Image->SizeOfData * 4 / 3);
-		iread(Compressed, 1, Image->SizeOfData * 4 / 3);
-
-		for (y = 0; y < Image->Height; y++) {
-			for (c = 0; c < Image->Bpp; c++) {
-				x = 0;
-				while (x < Header->Bps) {
-					ByteHead = Compressed[Read++];
-					if ((ByteHead & 0xC0) == 0xC0) {
-						ByteHead &= 0x3F;
-						Colour = Compressed[Read++];
-						for (i = 0; i < ByteHead; i++) {
-							ScanLine[x++] = Colour;
-						}
-					}
-					else {
-						ScanLine[x++] = ByteHead;
-					}
-				}
-
-				for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes ;)
-					Image->Data[y * Image->Bps + x * Image->Bpp + c] = ScanLine[x];
-				}
-			}
-		}
-
-		ifree(Compressed);
-		iseek(StartPos + Read, IL_SEEK_SET);*/
-
-	//changed 2003-09-01
-	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
-		iPreCache(iCurImage->SizeOfData);
-
-	//TODO: because the .pcx-code was broken this
-	//code is probably broken, too
-	for (y = 0; y < Image->Height; y++) {
-		for (c = 0; c < Image->Bpp; c++) {
-			x = 0;
-			while (x < Header->Bps) {
-				if (iread(&ByteHead, 1, 1) != 1) {
-					iUnCache();
-					goto dcx_error;
-				}
-				if ((ByteHead & 0xC0) == 0xC0) {
-					ByteHead &= 0x3F;
-					if (iread(&Colour, 1, 1) != 1) {
-						iUnCache();
-						goto dcx_error;
-					}
-					for (i = 0; i < ByteHead; i++) {
-						ScanLine[x++] = Colour;
-					}
-				}
-				else {
-					ScanLine[x++] = ByteHead;
-				}
-			}
-
-			for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes ;)
-				Image->Data[y * Image->Bps + x * Image->Bpp + c] = ScanLine[x];
-			}
-		}
+	if (Num == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
 	}
 
-	iUnCache();
-
-
-	ifree(ScanLine);
-
-	// Read in the palette
-	if (Image->Bpp == 1) {
-		ByteHead = igetc();	// the value 12, because it signals there's a palette for some reason...
-							//	We should do a check to make certain it's 12...
-		if (ByteHead != 12)
-			iseek(-1, IL_SEEK_CUR);
-		if (iread(Image->Pal.Palette, 1, Image->Pal.PalSize) != Image->Pal.PalSize) {
-			ilCloseImage(Image);
-			return NULL;
+	Base = iCurImage;
+	for (i = 0; i < Num; i++) {
+		if (i > 0) {
+			Image = ilNewImage(1, 1, 1, 1, 1);
+			if (Image == NULL)
+				break;
+			iCurImage->Next = Image;
+			iCurImage = Image;
 		}
-	}
-
-	return Image;
-
-dcx_error:
-	ifree(ScanLine);
-	ilCloseImage(Image);
-	return NULL;
-}
 
-
-ILimage *iUncompressDcxSmall(DCXHEAD *Header)
-{
-	ILuint	i = 0, j, k, c, d, x, y, Bps;
-	ILubyte	HeadByte, Colour, Data = 0, *ScanLine = NULL;
-	ILimage	*Image;
-
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
-	if (Image == NULL)
-		return NULL;
-
-	/*if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}*/
-	Image->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	switch (Header->NumPlanes)
-	{
-		case 1:
-			Image->Format = IL_LUMINANCE;
+		iseek(Start + Entries[i], IL_SEEK_SET);
+		if (!iGetPcxHead(&Header))
 			break;
-		case 4:
-			Image->Format = IL_COLOUR_INDEX;
+		if (!iCheckPcx(&Header)) {
+			ilSetError(IL_INVALID_FILE_HEADER);
 			break;
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			ilCloseImage(Image);
-			return NULL;
-	}
-
-	if (Header->NumPlanes == 1) {
-		for (j = 0; j < Image->Height; j++) {
-			i = 0;
-			while (i < Image->Width) {
-				if (iread(&HeadByte, 1, 1) != 1)
-					goto file_read_error;
-				if (HeadByte >= 192) {
-					HeadByte -= 192;
-					if (iread(&Data, 1, 1) != 1)
-						goto file_read_error;
-
-					for (c = 0; c < HeadByte; c++) {
-						k = 128;
-						for (d = 0; d < 8 && i < Image->Width; d++) {
-							Image->Data[j * Image->Width + i++] = (!!(Data & k) == 1 ? 255 : 0);
-							k >>= 1;
-						}
-					}
-				}
-				else {
-					k = 128;
-					for (c = 0; c < 8 && i < Image->Width; c++) {
-						Image->Data[j * Image->Width + i++] = (!!(HeadByte & k) == 1 ? 255 : 0);
-						k >>= 1;
-					}
-				}
-			}
-			if (Data != 0)
-				igetc();  // Skip pad byte if last byte not a 0
 		}
+		if (!iUncompressPcx(&Header))
+			break;
 	}
-	else {   // 4-bit images
-		Bps = Header->Bps * Header->NumPlanes * 2;
-		Image->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
-		Image->Pal.PalSize = 16 * 3;
-		Image->Pal.PalType = IL_PAL_RGB24;
-		ScanLine = (ILubyte*)ialloc(Bps);
-		if (Image->Pal.Palette == NULL || ScanLine == NULL) {
-			ifree(ScanLine);
-			ilCloseImage(Image);
-			return NULL;
-		}
-
-		memcpy(Image->Pal.Palette, Header->ColMap, 16 * 3);
-		imemclear(Image->Data, Image->SizeOfData);  // Since we do a += later.
-
-		for (y = 0; y < Image->Height; y++) {
-			for (c = 0; c < Header->NumPlanes; c++) {
-				x = 0;
-				while (x < Bps) {
-					if (iread(&HeadByte, 1, 1) != 1)
-						goto file_read_error;
-					if ((HeadByte & 0xC0) == 0xC0) {
-						HeadByte &= 0x3F;
-						if (iread(&Colour, 1, 1) != 1)
-							goto file_read_error;
-						for (i = 0; i < HeadByte; i++) {
-							k = 128;
-							for (j = 0; j < 8; j++) {
-								ScanLine[x++] = !!(Colour & k);
-								k >>= 1;
-							}
-						}
-					}
-					else {
-						k = 128;
-						for (j = 0; j < 8; j++) {
-							ScanLine[x++] = !!(HeadByte & k);
-							k >>= 1;
-						}
-					}
-				}
-
-				for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes. ;)
-					Image->Data[y * Image->Width + x] += ScanLine[x] << c;
-				}
-			}
-		}
-		ifree(ScanLine);
-	}
-
-	return Image;
+	iCurImage = Base;
+	if (i < Num)
+		return IL_FALSE;
 
-file_read_error:
-	ifree(ScanLine);
-	ilCloseImage(Image);
-	return NULL;
+	return ilFixImage();
 }
 
+
 #endif//IL_NO_DCX
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 9d9e1d4..742a482 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -84,6 +84,8 @@ ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 		Type = IL_BLP;
 	else if (!iStrCmp(Ext, IL_TEXT("cut")))
 		Type = IL_CUT;
+	else if (!iStrCmp(Ext, IL_TEXT("dcx")))
+		Type = IL_DCX;
 	else if (!iStrCmp(Ext, IL_TEXT("ch")) || !iStrCmp(Ext, IL_TEXT("ct")) || !iStrCmp(Ext, IL_TEXT("sct")))
 		Type = IL_SCITEX;
 	else if (!iStrCmp(Ext, IL_TEXT("dcm")) || !iStrCmp(Ext, IL_TEXT("dicom")))
@@ -206,6 +208,11 @@ static ILenum iProbeTypeF(ILHANDLE File)
 		return IL_JPG;
 	#endif
 
+	#ifndef IL_NO_DCX
+	if (ilIsValidDcxF(File))
+		return IL_DCX;
+	#endif
+
 	#ifndef IL_NO_DDS
 	if (ilIsValidDdsF(File))
 		return IL_DDS;
@@ -376,6 +383,11 @@ static ILenum iProbeTypeL(const void *Lump, ILuint Size)
 		return IL_JPG;
 	#endif
 
+	#ifndef IL_NO_DCX
+	if (ilIsValidDcxL(Lump, Size))
+		return IL_DCX;
+	#endif
+
 	#ifndef IL_NO_DDS
 	if (ilIsValidDdsL(Lump, Size))
 		return IL_DDS;
@@ -554,6 +566,11 @@ ILboolean ILAPIENTRY ilIsValid(ILenum Type, ILconst_string FileName)
 			return ilIsValidJpeg(FileName);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilIsValidDcx(FileName);
+		#endif
+
 		#ifndef IL_NO_DDS
 		case IL_DDS:
 			return ilIsValidDds(FileName);
@@ -719,6 +736,11 @@ ILboolean ILAPIENTRY ilIsValidF(ILenum Type, ILHANDLE File)
 			return ilIsValidJpegF(File);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilIsValidDcxF(File);
+		#endif
+
 		#ifndef IL_NO_DDS
 		case IL_DDS:
 			return ilIsValidDdsF(File);
@@ -884,6 +906,11 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 			return ilIsValidJpegL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilIsValidDcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_DDS
 		case IL_DDS:
 			return ilIsValidDdsL(Lump, Size);
@@ -1122,6 +1149,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			bRet = ilLoadDcx(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			bRet = ilLoadDicom(FileName);
@@ -1281,6 +1314,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			bRet = ilLoadScitex(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_SUN
 		case IL_SUN:
 			bRet = ilLoadSun(FileName);
@@ -1416,6 +1455,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadCutF(File);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxF(File);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomF(File);
@@ -1563,6 +1607,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadSgiF(File);
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexF(File);
+		#endif
+
 		#ifndef IL_NO_SUN
 		case IL_SUN:
 			return ilLoadSunF(File);
@@ -1679,6 +1728,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadCutL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomL(Lump, Size);
@@ -1826,6 +1880,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadSgiL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_SUN
 		case IL_SUN:
 			return ilLoadSunL(Lump, Size);
-- 
2.43.0


From 170521d43a4b55d7fb139353ea7662bb07dc13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 091/185] fix: TIFF: pages after the first got the wrong
 format, colours were multiplied by the alpha values, tiles of the size of the
 image and inverted 16-bit pages were misread

---
 DevIL/src-IL/src/il_tiff.cpp | 119 ++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 65 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 2a039c2..a1b5fd2 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -256,13 +256,27 @@ ILboolean iLoadTiffInternal (TIFF* tif, ILimage* Image)
 ////
 
 
+// Prepares the current image for the first page or appends an image to Image for a further one.
+static ILimage *iTiffNewPage(ILimage *Image, ILuint Width, ILuint Height, ILubyte Bpp, ILenum Format, ILenum Type)
+{
+	if (!Image) {
+		if (!ilTexImage(Width, Height, 1, Bpp, Format, Type, NULL))
+			return NULL;
+		return iCurImage;
+	}
+
+	Image->Next = ilNewImageFull(Width, Height, 1, Bpp, Format, Type, NULL);
+	return Image->Next;
+}
+
+
 // Internal function used to load the Tiff.
 ILboolean iLoadTiffInternal()
 {
 	TIFF	 *tif;
 	uint16	 photometric, planarconfig, orientation;
 	uint16	 samplesperpixel, bitspersample, *sampleinfo, extrasamples;
-	uint32	 w, h, d, linesize, tilewidth, tilelength;
+	uint32	 w, h, d, linesize;
 	ILubyte  *pImageData;
 	ILuint	 i, ProfileLen, DirCount = 0;
 	void	 *Buffer;
@@ -273,7 +287,7 @@ ILboolean iLoadTiffInternal()
 	//char emsg[1024];
 
 	// to avoid high order bits garbage when used as shorts
-	w = h = d = linesize = tilewidth = tilelength = 0;
+	w = h = d = linesize = 0;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -337,20 +351,15 @@ ILboolean iLoadTiffInternal()
 		//efficiently than with the TIFFReadRGBAImage() interface.
 		
 		//added 2004-05-12
-		//Get tile sizes and use TIFFReadRGBAImage() for tiled images for now
-		tilewidth = w; tilelength = h;
-		TIFFGetFieldDefaulted(tif, TIFFTAG_TILEWIDTH,  &tilewidth);
-		TIFFGetFieldDefaulted(tif, TIFFTAG_TILELENGTH, &tilelength);
-
-
+		//Use TIFFReadRGBAImage() for tiled images for now
 		if (extrasamples == 0
 			&& samplesperpixel == 1  //luminance or palette
 			&& (bitspersample == 8 || bitspersample == 1 || bitspersample == 16)
 			&& (photometric == PHOTOMETRIC_MINISWHITE
 				|| photometric == PHOTOMETRIC_MINISBLACK
-				|| photometric == PHOTOMETRIC_PALETTE)
+				|| (photometric == PHOTOMETRIC_PALETTE && bitspersample <= 8))
 			&& (orientation == ORIENTATION_TOPLEFT || orientation == ORIENTATION_BOTLEFT)
-			&& tilewidth == w && tilelength == h
+			&& !TIFFIsTiled(tif)
 			) {
 			ILubyte* strip;
 			tsize_t stripsize;
@@ -359,22 +368,10 @@ ILboolean iLoadTiffInternal()
 
 			//TODO: 1 bit/pixel images should not be stored as 8 bits...
 			//(-> add new format)
-			if (!Image) {
-				int type = IL_UNSIGNED_BYTE;
-				if (bitspersample == 16) type = IL_UNSIGNED_SHORT;
-				if (!ilTexImage(w, h, 1, 1, IL_LUMINANCE, type, NULL)) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = iCurImage;
-			}
-			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
-				if (Image->Next == NULL) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = Image->Next;
+			Image = iTiffNewPage(Image, w, h, 1, IL_LUMINANCE, bitspersample == 16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE);
+			if (Image == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
 			}
 
 			if (photometric == PHOTOMETRIC_PALETTE) { //read palette
@@ -383,12 +380,20 @@ ILboolean iLoadTiffInternal()
 				ILubyte *entry;
 				uint32 count = 1 << bitspersample, j;
 		
-				TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue);
+				if (!TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue)) {
+					ilSetError(IL_LIB_TIFF_ERROR);
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
 
 				Image->Format = IL_COLOUR_INDEX;
 				Image->Pal.PalSize = (count)*3;
 				Image->Pal.PalType = IL_PAL_RGB24;
 				Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
+				if (Image->Pal.Palette == NULL) {
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
 				entry = Image->Pal.Palette;
 				for (j = 0; j < count; ++j) {
 					entry[0] = (ILubyte)(red[j] >> 8);
@@ -399,10 +404,14 @@ ILboolean iLoadTiffInternal()
 				}
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			if (bitspersample == 8 || bitspersample == 16) {
 				ILubyte *dat = Image->Data;
@@ -431,7 +440,7 @@ ILboolean iLoadTiffInternal()
 							//making up a pixel can be inverted independently
 							for (k = 0; k < Image->Bps; ++k)
 								dat[k] = ~strip[t2 + k];
-							dat += w;
+							dat += Image->Bps;
 						}
 					}
 					else
@@ -497,35 +506,27 @@ ILboolean iLoadTiffInternal()
 			&& photometric == PHOTOMETRIC_RGB
 			&& planarconfig == 1
 			&& (orientation == ORIENTATION_TOPLEFT || orientation == ORIENTATION_BOTLEFT)
-			&& tilewidth == w && tilelength == h
+			&& !TIFFIsTiled(tif)
 			) {
 			ILubyte *strip, *dat;
 			tsize_t stripsize;
 			ILuint y;
 			uint32 rowsperstrip, j, linesread;
 
-			if (!Image) {
-				int type = IL_UNSIGNED_BYTE;
-				if (bitspersample == 16) type = IL_UNSIGNED_SHORT;
-				if(!ilTexImage(w, h, 1, 3, IL_RGB, type, NULL)) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = iCurImage;
-			}
-			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
-				if(Image->Next == NULL) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = Image->Next;
+			Image = iTiffNewPage(Image, w, h, 3, IL_RGB, bitspersample == 16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE);
+			if (Image == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			dat = Image->Data;
 			for (y = 0; y < h; y += rowsperstrip) {
@@ -566,25 +567,16 @@ ILboolean iLoadTiffInternal()
 				*/
 		else {
 				//not direclty supported format
-			if(!Image) {
-				if(!ilTexImage(w, h, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = iCurImage;
-			}
-			else {
-				Image->Next = ilNewImage(w, h, 1, 4, 1);
-				if(Image->Next == NULL) {
-					TIFFClose(tif);
-					return IL_FALSE;
-				}
-				Image = Image->Next;
+			Image = iTiffNewPage(Image, w, h, 4, IL_RGBA, IL_UNSIGNED_BYTE);
+			if (Image == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
 			}
 
 			if (samplesperpixel == 4) {
 				TIFFGetFieldDefaulted(tif, TIFFTAG_EXTRASAMPLES, &extrasamples, &sampleinfo);
-				if (!sampleinfo || sampleinfo[0] == EXTRASAMPLE_UNSPECIFIED) {
+				// Keep libtiff from multiplying the colours by the alpha values.
+				if (extrasamples == 0 || !sampleinfo || sampleinfo[0] != EXTRASAMPLE_ASSOCALPHA) {
 					si = EXTRASAMPLE_ASSOCALPHA;
 					TIFFSetField(tif, TIFFTAG_EXTRASAMPLES, 1, &si);
 				}
@@ -595,9 +587,6 @@ ILboolean iLoadTiffInternal()
 				 return IL_FALSE;
 			 }
 			 */
-			Image->Format = IL_RGBA;
-			Image->Type = IL_UNSIGNED_BYTE;
-	
 			// Siigron: added u_long cast to shut up compiler warning
 			//2003-08-31: changed flag from 1 (exit on error) to 0 (keep decoding)
 			//this lets me view text.tif, but can give crashes with unsupported
-- 
2.43.0


From bf8529c50ef0e00eda28c7eac160d5bcb15f3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 092/185] fix: PSD: 16 bit, compressed, CMYK and alpha channels
 were read wrongly or out of bounds; saved palettes were cut off and
 grey+alpha images failed after the header

---
 DevIL/src-IL/include/il_psd.h |   1 -
 DevIL/src-IL/src/il_psd.cpp   | 794 ++++++++++++----------------------
 2 files changed, 281 insertions(+), 514 deletions(-)

diff --git a/DevIL/src-IL/include/il_psd.h b/DevIL/src-IL/include/il_psd.h
index 5bc576e..cfeb888 100644
--- a/DevIL/src-IL/include/il_psd.h
+++ b/DevIL/src-IL/include/il_psd.h
@@ -48,7 +48,6 @@ ILboolean	ReadCMYK(PSDHEAD *Head);
 ILuint		*GetCompChanLen(PSDHEAD *Head);
 ILboolean	PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed);
 ILboolean	ParseResources(ILuint ResourceSize, ILubyte *Resources);
-ILboolean	GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed);
 ILboolean	iSavePsdInternal(void);
 
 
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index bd3e953..2cec5e1 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -20,25 +20,6 @@
 #ifndef IL_NO_PSD
 #include "il_psd.h"
 
-static float ubyte_to_float(ILubyte val)
-{
-	return ((float)val) / 255.0f;
-}
-static float ushort_to_float(ILushort val)
-{
-	return ((float)val) / 65535.0f;
-}
-
-static ILubyte float_to_ubyte(float val)
-{
-	return (ILubyte)(val * 255.0f);
-}
-static ILushort float_to_ushort(float val)
-{
-	return (ILushort)(val * 65535.0f);
-}
-
-
 //! Checks if the file specified in FileName is a valid Psd file.
 ILboolean ilIsValidPsd(ILconst_string FileName)
 {
@@ -90,6 +71,7 @@ ILboolean ilIsValidPsdL(const void *Lump, ILuint Size)
 // Internal function used to get the Psd header from the current file.
 ILboolean iGetPsdHead(PSDHEAD *Header)
 {
+	imemclear(Header, sizeof(PSDHEAD));
 	iread(Header->Signature, 1, 4);
 	Header->Version = GetBigUShort();
 	iread(Header->Reserved, 1, 6);
@@ -224,51 +206,87 @@ ILboolean ReadPsd(PSDHEAD *Head)
 }
 
 
-ILboolean ReadGrey(PSDHEAD *Head)
+// Skips the colour mode data (which is returned in ColourMode when it is wanted), reads the image resources,
+//  skips the layers and reads the compression method.
+static ILboolean iPsdSections(ILubyte **ColourMode, ILuint *ColourModeSize, ILubyte **Resources, ILuint *ResourceSize, ILboolean *Compressed)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo;
-	ILushort	Compressed;
-	ILenum		Type;
-	ILubyte		*Resources = NULL;
+	ILuint		Size, c;
+	ILubyte		**Section[2];
+	ILuint		*SectionSize[2];
+	ILushort	Method;
+
+	Section[0] = ColourMode;  SectionSize[0] = ColourModeSize;
+	Section[1] = Resources;  SectionSize[1] = ResourceSize;
+
+	for (c = 0; c < 2; c++) {
+		Size = GetBigUInt();
+		if (Section[c] == NULL) {
+			if (Size != 0)
+				iseek(Size, IL_SEEK_CUR);
+			continue;
+		}
+		*SectionSize[c] = Size;
+		if (Size == 0)
+			continue;
+		*Section[c] = (ILubyte*)ialloc(Size);
+		if (*Section[c] == NULL)
+			return IL_FALSE;
+		if (iread(*Section[c], 1, Size) != Size)
+			return IL_FALSE;
+	}
 
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
+	Size = GetBigUInt();  // Layers
+	if (Size != 0)
+		iseek(Size, IL_SEEK_CUR);
 
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
+	if (iread(&Method, sizeof(ILushort), 1) != 1)
+		return IL_FALSE;
+	BigUShort(&Method);
+	if (Method > 1) {  // Zip compression
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
+	*Compressed = (ILboolean)Method;
 
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
+	return IL_TRUE;
+}
 
-	Compressed = GetBigUShort();
 
-	ChannelNum = Head->Channels;
-	Head->Channels = 1;  // Temporary to read only one channel...some greyscale .psd files have 2.
-	if (Head->Channels != 1) {
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
-	}
+static ILboolean iPsdType(PSDHEAD *Head, ILenum *Type)
+{
 	switch (Head->Depth)
 	{
 		case 8:
-			Type = IL_UNSIGNED_BYTE;
-			break;
+			*Type = IL_UNSIGNED_BYTE;
+			return IL_TRUE;
 		case 16:
-			Type = IL_UNSIGNED_SHORT;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			*Type = IL_UNSIGNED_SHORT;
+			return IL_TRUE;
 	}
 
+	ilSetError(IL_FORMAT_NOT_SUPPORTED);
+	return IL_FALSE;
+}
+
+
+ILboolean ReadGrey(PSDHEAD *Head)
+{
+	ILuint		ResourceSize = 0;
+	ILboolean	Compressed;
+	ILenum		Type;
+	ILubyte		*Resources = NULL;
+
+	if (!iPsdType(Head, &Type))
+		return IL_FALSE;
+	if (!iPsdSections(NULL, NULL, &Resources, &ResourceSize, &Compressed))
+		goto cleanup_error;
+
+	ChannelNum = Head->Channels;
+	Head->Channels = 1;  // Read only one channel...some greyscale .psd files have 2.
+
 	if (!ilTexImage(Head->Width, Head->Height, 1, 1, IL_LUMINANCE, Type, NULL))
 		goto cleanup_error;
-	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
+	if (!PsdGetData(Head, iCurImage->Data, Compressed))
 		goto cleanup_error;
 	if (!ParseResources(ResourceSize, Resources))
 		goto cleanup_error;
@@ -284,38 +302,16 @@ cleanup_error:
 
 ILboolean ReadIndexed(PSDHEAD *Head)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo, i, j, NumEnt;
-	ILushort	Compressed;
+	ILuint		ColorMode = 0, ResourceSize = 0, i, j, NumEnt;
+	ILboolean	Compressed;
 	ILubyte		*Palette = NULL, *Resources = NULL;
 
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	if (ColorMode % 3 != 0) {
+	if (!iPsdSections(&Palette, &ColorMode, &Resources, &ResourceSize, &Compressed))
+		goto cleanup_error;
+	if (ColorMode == 0 || ColorMode % 3 != 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
-	}
-	Palette = (ILubyte*)ialloc(ColorMode);
-	if (Palette == NULL)
-		return IL_FALSE;
-	if (iread(Palette, 1, ColorMode) != ColorMode)
 		goto cleanup_error;
-
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
-		return IL_FALSE;
 	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	if (ieof())
-		goto cleanup_error;
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
-	if (ieof())
-		goto cleanup_error;
-
 	if (Head->Channels != 1 || Head->Depth != 8) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		goto cleanup_error;
@@ -338,15 +334,13 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 		iCurImage->Pal.Palette[i+1] = Palette[j+NumEnt];
 		iCurImage->Pal.Palette[i+2] = Palette[j+NumEnt*2];
 	}
-	ifree(Palette);
-	Palette = NULL;
 
-	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
+	if (!PsdGetData(Head, iCurImage->Data, Compressed))
 		goto cleanup_error;
-
-	ParseResources(ResourceSize, Resources);
+	if (!ParseResources(ResourceSize, Resources))
+		goto cleanup_error;
+	ifree(Palette);
 	ifree(Resources);
-	Resources = NULL;
 
 	return IL_TRUE;
 
@@ -360,63 +354,33 @@ cleanup_error:
 
 ILboolean ReadRGB(PSDHEAD *Head)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo;
-	ILushort	Compressed;
-	ILenum		Format, Type;
+	ILuint		ResourceSize = 0;
+	ILboolean	Compressed;
+	ILenum		Type;
 	ILubyte		*Resources = NULL;
 
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
-
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL)
+	if (!iPsdType(Head, &Type))
 		return IL_FALSE;
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
-
-	ChannelNum = Head->Channels;
-	if (Head->Channels == 3)
- 	{
-		Format = IL_RGB;
-	}
-	else if (Head->Channels == 4)
-	{
-		Format = IL_RGBA;
-	}
-	else if (Head->Channels >= 5)
-	{
-		// Additional channels are accumulated as a single alpha channel, since
-		// if an image does not have a layer set as the "background", but also
-		// has a real alpha channel, there will be 5 channels (or more).
-		Format = IL_RGBA;
-	}
-	else
-	{
+	if (Head->Channels < 3) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
+	if (!iPsdSections(NULL, NULL, &Resources, &ResourceSize, &Compressed))
+		goto cleanup_error;
 
-	switch (Head->Depth)
-	{
-		case 8:
-			Type = IL_UNSIGNED_BYTE;
-			break;
-		case 16:
-			Type = IL_UNSIGNED_SHORT;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+	ChannelNum = Head->Channels;
+	// Additional channels are accumulated as a single alpha channel, since
+	// if an image does not have a layer set as the "background", but also
+	// has a real alpha channel, there will be 5 channels (or more).
+	if (Head->Channels == 3) {
+		if (!ilTexImage(Head->Width, Head->Height, 1, 3, IL_RGB, Type, NULL))
+			goto cleanup_error;
 	}
-	if (!ilTexImage(Head->Width, Head->Height, 1, (Format==IL_RGB) ? 3 : 4, Format, Type, NULL))
-		goto cleanup_error;
-	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
+	else {
+		if (!ilTexImage(Head->Width, Head->Height, 1, 4, IL_RGBA, Type, NULL))
+			goto cleanup_error;
+	}
+	if (!PsdGetData(Head, iCurImage->Data, Compressed))
 		goto cleanup_error;
 	if (!ParseResources(ResourceSize, Resources))
 		goto cleanup_error;
@@ -432,146 +396,68 @@ cleanup_error:
 
 ILboolean ReadCMYK(PSDHEAD *Head)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo, Size, i, j;
-	ILushort	Compressed;
-	ILenum		Format, Type;
-	ILubyte		*Resources = NULL, *KChannel = NULL;
-
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
+	ILuint		ResourceSize = 0;
+	ILboolean	Compressed;
+	ILenum		Type;
+	ILubyte		*Resources = NULL;
 
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
+	if (!iPsdType(Head, &Type))
+		return IL_FALSE;
+	if (Head->Channels != 4 && Head->Channels != 5) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
-
-	switch (Head->Channels)
-	{
-		case 4:
-			Format = IL_RGB;
-			ChannelNum = 4;
-			Head->Channels = 3;
-			break;
-		case 5:
-			Format = IL_RGBA;
-			ChannelNum = 5;
-			Head->Channels = 4;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
-	}
-	switch (Head->Depth)
-	{
-		case 8:
-			Type = IL_UNSIGNED_BYTE;
-			break;
-		case 16:
-			Type = IL_UNSIGNED_SHORT;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
-	}
-	if (!ilTexImage(Head->Width, Head->Height, 1, (ILubyte)Head->Channels, Format, Type, NULL))
-		goto cleanup_error;
-	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
+	if (!iPsdSections(NULL, NULL, &Resources, &ResourceSize, &Compressed))
 		goto cleanup_error;
 
-	Size = iCurImage->Bpc * iCurImage->Width * iCurImage->Height;
-	KChannel = (ILubyte*)ialloc(Size);
-	if (KChannel == NULL)
+	ChannelNum = Head->Channels;
+	if (!ilTexImage(Head->Width, Head->Height, 1, (ILubyte)(Head->Channels - 1), Head->Channels == 4 ? IL_RGB : IL_RGBA, Type, NULL))
 		goto cleanup_error;
-	if (!GetSingleChannel(Head, KChannel, (ILboolean)Compressed))
+	if (!PsdGetData(Head, iCurImage->Data, Compressed))
 		goto cleanup_error;
-
-	if (Format == IL_RGB) {
-		for (i = 0, j = 0; i < iCurImage->SizeOfData; i += 3, j++) {
-			iCurImage->Data[i  ] = (iCurImage->Data[i  ] * KChannel[j]) >> 8;
-			iCurImage->Data[i+1] = (iCurImage->Data[i+1] * KChannel[j]) >> 8;
-			iCurImage->Data[i+2] = (iCurImage->Data[i+2] * KChannel[j]) >> 8;
-		}
-	}
-	else {  // IL_RGBA
-		// The KChannel array really holds the alpha channel on this one.
-		for (i = 0, j = 0; i < iCurImage->SizeOfData; i += 4, j++) {
-			iCurImage->Data[i  ] = (iCurImage->Data[i  ] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+1] = (iCurImage->Data[i+1] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+2] = (iCurImage->Data[i+2] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+3] = KChannel[j];  // Swap 'K' with alpha channel.
-		}
-	}
-
 	if (!ParseResources(ResourceSize, Resources))
 		goto cleanup_error;
-
 	ifree(Resources);
-	ifree(KChannel);
 
 	return IL_TRUE;
 
 cleanup_error:
 	ifree(Resources);
-	ifree(KChannel);
 	return IL_FALSE;
 }
 
 
+// Gets the compressed length of every channel.
 ILuint *GetCompChanLen(PSDHEAD *Head)
 {
-	ILushort	*RleTable;
-	ILuint		*ChanLen, c, i, j;
-
-	RleTable = (ILushort*)ialloc(Head->Height * ChannelNum * sizeof(ILushort));
-	ChanLen = (ILuint*)ialloc(ChannelNum * sizeof(ILuint));
-	if (RleTable == NULL || ChanLen == NULL) {
-		return NULL;
-	}
+	ILushort	RowLen;
+	ILuint		*ChanLen, c, i;
 
-	if (iread(RleTable, sizeof(ILushort), Head->Height * ChannelNum) != Head->Height * ChannelNum) {
-		ifree(RleTable);
-		ifree(ChanLen);
+	ChanLen = (ILuint*)icalloc(ChannelNum, sizeof(ILuint));
+	if (ChanLen == NULL) {
 		return NULL;
 	}
-#ifdef __LITTLE_ENDIAN__
-	for (i = 0; i < Head->Height * ChannelNum; i++) {
-		iSwapUShort(&RleTable[i]);
-	}
-#endif
 
-	imemclear(ChanLen, ChannelNum * sizeof(ILuint));
 	for (c = 0; c < ChannelNum; c++) {
-		j = c * Head->Height;
 		for (i = 0; i < Head->Height; i++) {
-			ChanLen[c] += RleTable[i + j];
+			if (iread(&RowLen, sizeof(ILushort), 1) != 1) {
+				ifree(ChanLen);
+				return NULL;
+			}
+			BigUShort(&RowLen);
+			ChanLen[c] += RowLen;
 		}
 	}
 
-	ifree(RleTable);
-
 	return ChanLen;
 }
 
 
-
-static const ILuint READ_COMPRESSED_SUCCESS					= 0;
-static const ILuint READ_COMPRESSED_ERROR_FILE_CORRUPT		= 1;
-static const ILuint READ_COMPRESSED_ERROR_FILE_READ_ERROR	= 2;
-
-static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte* Channel)
+static ILboolean ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte* Channel)
 {
-	ILuint		i;
-	ILint		Run;
+	ILuint		i, Run;
+	ILint		HeadByte, Value;
 	ILboolean	PreCache = IL_FALSE;
-	ILbyte		HeadByte;
 
 	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
 		PreCache = IL_TRUE;
@@ -580,60 +466,77 @@ static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte*
 		iPreCache(ChanLen);
 	for (i = 0; i < Size; ) {
 		HeadByte = igetc();
-
-		if (HeadByte >= 0) {  //  && HeadByte <= 127
-			if (i + HeadByte > Size)
-			{
-				if (PreCache)
-					iUnCache();
-				return READ_COMPRESSED_ERROR_FILE_CORRUPT;
-			}
-			if (iread(Channel + i, HeadByte + 1, 1) != 1)
-			{
-				if (PreCache)
-					iUnCache();
-				return READ_COMPRESSED_ERROR_FILE_READ_ERROR;
+		if (HeadByte == IL_EOF)
+			goto error;
+
+		if (HeadByte < 128) {
+			Run = HeadByte + 1;
+			if (Run > Size - i) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto error;
 			}
-
-			i += HeadByte + 1;
+			if (iread(Channel + i, 1, Run) != Run)
+				goto error;
+			i += Run;
 		}
-		if (HeadByte >= -127 && HeadByte <= -1) {
-			Run = igetc();
-			if (Run == IL_EOF)
-			{
-				if (PreCache)
-					iUnCache();
-				return READ_COMPRESSED_ERROR_FILE_READ_ERROR;
-			}
-			if (i + (-HeadByte + 1) > Size)
-			{
-				if (PreCache)
-					iUnCache();
-				return READ_COMPRESSED_ERROR_FILE_CORRUPT;
+		else if (HeadByte > 128) {
+			Run = 257 - HeadByte;
+			Value = igetc();
+			if (Value == IL_EOF)
+				goto error;
+			if (Run > Size - i) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto error;
 			}
-
-			memset(Channel + i, Run, -HeadByte + 1);
-			i += -HeadByte + 1;
+			memset(Channel + i, Value, Run);
+			i += Run;
 		}
-		if (HeadByte == -128)
-		{ }  // Noop
+		// 128 is a noop.
 	}
 	if (PreCache)
 		iUnCache();
 
-	return READ_COMPRESSED_SUCCESS;
+	return IL_TRUE;
+
+error:
+	if (PreCache)
+		iUnCache();
+	return IL_FALSE;
+}
+
+
+// Reads one channel (always as 16 bit values when the image has 16 bit channels).
+static ILboolean iPsdGetChannel(PSDHEAD *Head, ILubyte *Channel, ILuint *ChanLen, ILuint c)
+{
+	ILuint Size = Head->Width * Head->Height * iCurImage->Bpc, i;
+
+	if (ChanLen == NULL) {
+		if (iread(Channel, 1, Size) != Size)
+			return IL_FALSE;
+	}
+	else {
+		if (!ReadCompressedChannel(ChanLen[c], Size, Channel))
+			return IL_FALSE;
+	}
+
+	if (iCurImage->Bpc == 2) {
+		for (i = 0; i < Size / 2; i++)
+			BigUShort((ILushort*)Channel + i);
+	}
+
+	return IL_TRUE;
 }
 
 
 ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 {
-	ILuint		c, x, y, i, Size, ReadResult, NumChan;
-	ILubyte		*Channel = NULL;
-	ILushort	*ShortPtr;
+	ILuint		c, i, NumPix, NumChan, Max, Bpp, Into;
+	ILubyte		*Channel, *Data8 = (ILubyte*)Buffer;
+	ILushort	*Channel16, *Data16 = (ILushort*)Buffer;
 	ILuint		*ChanLen = NULL;
+	ILboolean	Multiply;
 
-	// Added 01-07-2009: This is needed to correctly load greyscale and
-	//  paletted images.
+	// The number of colour channels
 	switch (Head->Mode)
 	{
 		case 1:
@@ -644,164 +547,63 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 			NumChan = 3;
 	}
 
-	Channel = (ILubyte*)ialloc(Head->Width * Head->Height * iCurImage->Bpc);
-	if (Channel == NULL) {
-		return IL_FALSE;
+	if (Compressed) {
+		ChanLen = GetCompChanLen(Head);
+		if (ChanLen == NULL)
+			return IL_FALSE;
 	}
-	ShortPtr = (ILushort*)Channel;
 
-	// @TODO: Add support for this in, though I have yet to run across a .psd
-	//	file that uses this.
-	if (Compressed && iCurImage->Type == IL_UNSIGNED_SHORT) {
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+	Bpp = iCurImage->Bpp;
+	NumPix = Head->Width * Head->Height;
+	Max = iCurImage->Bpc == 1 ? 255 : 65535;
+	Channel = (ILubyte*)ialloc(NumPix * iCurImage->Bpc);
+	if (Channel == NULL) {
+		ifree(ChanLen);
 		return IL_FALSE;
 	}
+	Channel16 = (ILushort*)Channel;
 
-	if (!Compressed) {
-		if (iCurImage->Bpc == 1) {
-			for (c = 0; c < NumChan; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						iCurImage->Data[y + x + c] = Channel[i];
-					}
-				}
-			}
-			// Accumulate any remaining channels into a single alpha channel
-			//@TODO: This needs to be changed for greyscale images.
-			for (; c < Head->Channels; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						float curVal = ubyte_to_float(iCurImage->Data[y + x + 3]);
-						float newVal = ubyte_to_float(Channel[i]);
-						iCurImage->Data[y + x + 3] = float_to_ubyte(curVal * newVal);
-					}
-				}
-			}
-		}
-		else {  // iCurImage->Bpc == 2
-			for (c = 0; c < NumChan; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height * 2, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				iCurImage->Bps /= 2;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-					 #ifndef WORDS_BIGENDIAN
-						iSwapUShort(ShortPtr+i);
-					 #endif
-						((ILushort*)iCurImage->Data)[y + x + c] = ShortPtr[i];
-					}
-				}
-				iCurImage->Bps *= 2;
-			}
-			// Accumulate any remaining channels into a single alpha channel
-			//@TODO: This needs to be changed for greyscale images.
-			for (; c < Head->Channels; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height * 2, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				iCurImage->Bps /= 2;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						float curVal = ushort_to_float(((ILushort*)iCurImage->Data)[y + x + 3]);
-						float newVal = ushort_to_float(ShortPtr[i]);
-						((ILushort*)iCurImage->Data)[y + x + 3] = float_to_ushort(curVal * newVal);
-					}
-				}
-				iCurImage->Bps *= 2;
-			}
+	for (c = 0; c < Head->Channels; c++) {
+		if (!iPsdGetChannel(Head, Channel, ChanLen, c)) {
+			ifree(ChanLen);
+			ifree(Channel);
+			return IL_FALSE;
 		}
-	}
-	else {
-		ChanLen = GetCompChanLen(Head);
 
-		Size = Head->Width * Head->Height;
-		for (c = 0; c < NumChan; c++) {
-			ReadResult = ReadCompressedChannel(ChanLen[c], Size, Channel);
-			if (ReadResult == READ_COMPRESSED_ERROR_FILE_CORRUPT)
-				goto file_corrupt;
-			else if (ReadResult == READ_COMPRESSED_ERROR_FILE_READ_ERROR)
-				goto file_read_error;
-
-			i = 0;
-			for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-				for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-					iCurImage->Data[y + x + c] = Channel[i];
-				}
+		if (Head->Mode == 4 && c == 3) {  // Black applies to all of the colours.
+			for (i = 0; i < NumPix * Bpp; i++) {
+				if (i % Bpp == 3)
+					continue;
+				if (iCurImage->Bpc == 1)
+					Data8[i] = (ILubyte)((Data8[i] * Channel[i / Bpp] + Max / 2) / Max);
+				else
+					Data16[i] = (ILushort)((Data16[i] * (ILuint)Channel16[i / Bpp] + Max / 2) / Max);
 			}
+			continue;
 		}
 
-		// Initialize the alpha channel to solid
-		//@TODO: This needs to be changed for greyscale images.
-		if (Head->Channels >= 4) {
-			for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-				for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp) {
-					iCurImage->Data[y + x + 3] = 255;
-				}
-			}
-					
-			for (; c < Head->Channels; c++) {
-				ReadResult = ReadCompressedChannel(ChanLen[c], Size, Channel);
-				if (ReadResult == READ_COMPRESSED_ERROR_FILE_CORRUPT)
-					goto file_corrupt;
-				else if (ReadResult == READ_COMPRESSED_ERROR_FILE_READ_ERROR)
-					goto file_read_error;
-
-				i = 0;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						float curVal = ubyte_to_float(iCurImage->Data[y + x + 3]);
-						float newVal = ubyte_to_float(Channel[i]);
-						iCurImage->Data[y + x + 3] = float_to_ubyte(curVal * newVal);
-					}
-				}
-			}
+		// Any remaining channels are accumulated into a single alpha channel.
+		Into = c < NumChan ? c : 3;
+		Multiply = c > NumChan && Head->Mode != 4;
+		for (i = 0; i < NumPix; i++) {
+			if (iCurImage->Bpc == 1)
+				Data8[i * Bpp + Into] = Multiply ? (ILubyte)(Data8[i * Bpp + Into] * Channel[i] / Max) : Channel[i];
+			else
+				Data16[i * Bpp + Into] = Multiply ? (ILushort)(Data16[i * Bpp + Into] * (ILuint)Channel16[i] / Max) : Channel16[i];
 		}
-
-		ifree(ChanLen);
 	}
 
-	ifree(Channel);
-
-	return IL_TRUE;
-
-file_corrupt:
 	ifree(ChanLen);
 	ifree(Channel);
-	ilSetError(IL_ILLEGAL_FILE_VALUE);
-	return IL_FALSE;
 
-file_read_error:
-	ifree(ChanLen);
-	ifree(Channel);
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 
 ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 {
 	ILushort	ID;
-	ILubyte		NameLen;
-	ILuint		Size;
-
-	if (Resources == NULL) {
-		ilSetError(IL_INTERNAL_ERROR);
-		return IL_FALSE;
-	}
+	ILuint		NameLen, Size;
 
 	while (ResourceSize > 13) {  // Absolutely has to be larger than this.
 		if (strncmp("8BIM", (const char*)Resources, 4)) {
@@ -810,29 +612,35 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 		}
 		Resources += 4;
 
-		ID = *((ILushort*)Resources);
+		memcpy(&ID, Resources, sizeof(ILushort));
 		BigUShort(&ID);
 		Resources += 2;
 
 		NameLen = *Resources++;
 		// NameLen + the byte it occupies must be padded to an even number, so NameLen must be odd.
 		NameLen = NameLen + (NameLen & 1 ? 0 : 1);
+		if (4 + 2 + 1 + NameLen + 4 > ResourceSize)
+			return IL_TRUE;
 		Resources += NameLen;
 
 		// Get the resource data size.
-		Size = *((ILuint*)Resources);
+		memcpy(&Size, Resources, sizeof(ILuint));
 		BigUInt(&Size);
 		Resources += 4;
 
 		ResourceSize -= (4 + 2 + 1 + NameLen + 4);
+		if (Size > ResourceSize) {  // Check to make sure we are not going past the end of Resources.
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 
 		switch (ID)
 		{
 			case 0x040F:  // ICC Profile
-				if (Size > ResourceSize) {  // Check to make sure we are not going past the end of Resources.
-					ilSetError(IL_ILLEGAL_FILE_VALUE);
-					return IL_FALSE;
-				}
+				if (Size == 0)
+					break;
+				ifree(iCurImage->Profile);
+				iCurImage->ProfileSize = 0;
 				iCurImage->Profile = (ILubyte*)ialloc(Size);
 				if (iCurImage->Profile == NULL) {
 					return IL_FALSE;
@@ -845,7 +653,7 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 				break;
 		}
 
-		if (Size & 1)  // Must be an even number.
+		if ((Size & 1) && Size < ResourceSize)  // Must be an even number.
 			Size++;
 		ResourceSize -= Size;
 		Resources += Size;
@@ -855,50 +663,6 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 }
 
 
-ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
-{
-	ILuint		i;
-	ILushort	*ShortPtr;
-	ILbyte		HeadByte;
-	ILint		Run;
-
-	ShortPtr = (ILushort*)Buffer;
-
-	if (!Compressed) {
-		if (iCurImage->Bpc == 1) {
-			if (iread(Buffer, Head->Width * Head->Height, 1) != 1)
-				return IL_FALSE;
-		}
-		else {  // iCurImage->Bpc == 2
-			if (iread(Buffer, Head->Width * Head->Height * 2, 1) != 1)
-				return IL_FALSE;
-		}
-	}
-	else {
-		for (i = 0; i < Head->Width * Head->Height; ) {
-			HeadByte = igetc();
-
-			if (HeadByte >= 0) {  //  && HeadByte <= 127
-				if (iread(Buffer + i, HeadByte + 1, 1) != 1)
-					return IL_FALSE;
-				i += HeadByte + 1;
-			}
-			if (HeadByte >= -127 && HeadByte <= -1) {
-				Run = igetc();
-				if (Run == IL_EOF)
-					return IL_FALSE;
-				memset(Buffer + i, Run, -HeadByte + 1);
-				i += -HeadByte + 1;
-			}
-			if (HeadByte == -128)
-			{ }  // Noop
-		}
-	}
-
-	return IL_TRUE;
-}
-
-
 
 //! Writes a Psd file
 ILboolean ilSavePsd(const ILstring FileName)
@@ -957,11 +721,12 @@ ILboolean iSavePsdInternal()
 {
 	ILubyte		*Signature = (ILubyte*)"8BPS";
 	ILimage		*TempImage;
-	ILpal		*TempPal;
+	ILpal		*TempPal = NULL;
 	ILuint		c, i;
 	ILubyte		*TempData;
 	ILushort	*ShortPtr;
 	ILenum		Format, Type;
+	ILushort	Mode;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -971,22 +736,30 @@ ILboolean iSavePsdInternal()
 	Format = iCurImage->Format;
 	Type = iCurImage->Type;
 
-	// All of these comprise the actual signature.
-	iwrite(Signature, 1, 4);
-	SaveBigShort(1);
-	SaveBigInt(0);
-	SaveBigShort(0);
-
-	SaveBigShort(iCurImage->Bpp);
-	SaveBigInt(iCurImage->Height);
-	SaveBigInt(iCurImage->Width);
+	// @TODO:  Put the other formats here.
+	switch (iCurImage->Format)
+	{
+		case IL_COLOUR_INDEX:
+			Mode = 2;
+			break;
+		case IL_LUMINANCE:
+			Mode = 1;
+			break;
+		case IL_RGB:
+		case IL_BGR:
+			Format = IL_RGB;
+			Mode = 3;
+			break;
+		default:
+			Format = IL_RGBA;
+			Mode = 3;
+	}
 	if (iCurImage->Bpc > 2)
 		Type = IL_UNSIGNED_SHORT;
-
-	if (iCurImage->Format == IL_BGR)
-		Format = IL_RGB;
-	else if (iCurImage->Format == IL_BGRA)
-		Format = IL_RGBA;
+	if (Format == IL_COLOUR_INDEX && iCurImage->Type != IL_UNSIGNED_BYTE) {
+		ilSetError(IL_INVALID_CONVERSION);
+		return IL_FALSE;
+	}
 
 	if (Format != iCurImage->Format || Type != iCurImage->Type) {
 		TempImage = iConvertImage(iCurImage, Format, Type);
@@ -996,42 +769,50 @@ ILboolean iSavePsdInternal()
 	else {
 		TempImage = iCurImage;
 	}
-	SaveBigShort((ILushort)(TempImage->Bpc * 8));
-
-	// @TODO:  Put the other formats here.
-	switch (TempImage->Format)
-	{
-		case IL_COLOUR_INDEX:
-			SaveBigShort(2);
-			break;
-		case IL_LUMINANCE:
-			SaveBigShort(1);
-			break;
-		case IL_RGB:
-		case IL_RGBA:
-			SaveBigShort(3);
-			break;
-		default:
-			ilSetError(IL_INTERNAL_ERROR);
+	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
+		TempData = iGetFlipped(TempImage);
+		if (TempData == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
+		}
 	}
-
-	if (TempImage->Format == IL_COLOUR_INDEX) {
-		// @TODO: We're currently making a potentially fatal assumption that
-		//	iConvertImage was not called if the format is IL_COLOUR_INDEX.
+	else {
+		TempData = TempImage->Data;
+	}
+	if (Mode == 2) {
 		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
-		if (TempPal == NULL)
+		if (TempPal == NULL) {
+			if (TempData != TempImage->Data)
+				ifree(TempData);
 			return IL_FALSE;
+		}
+	}
+
+	// All of these comprise the actual signature.
+	iwrite(Signature, 1, 4);
+	SaveBigShort(1);
+	SaveBigInt(0);
+	SaveBigShort(0);
+
+	SaveBigShort(TempImage->Bpp);
+	SaveBigInt(TempImage->Height);
+	SaveBigInt(TempImage->Width);
+	SaveBigShort((ILushort)(TempImage->Bpc * 8));
+	SaveBigShort(Mode);
+
+	if (Mode == 2) {
 		SaveBigInt(768);
 
 		// Have to save the palette in a planar format.
 		for (c = 0; c < 3; c++) {
-			for (i = c; i < TempPal->PalSize; i += 3) {
-				iputc(TempPal->Palette[i]);
+			for (i = 0; i < 256; i++) {
+				iputc((ILubyte)(i < TempPal->PalSize / 3 ? TempPal->Palette[i * 3 + c] : 0));
 			}
 		}
 
 		ifree(TempPal->Palette);
+		ifree(TempPal);
 	}
 	else {
 		SaveBigInt(0);  // No colour mode data.
@@ -1043,17 +824,6 @@ ILboolean iSavePsdInternal()
 
 	// @TODO:  Add RLE compression.
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
-		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
-	}
-	else {
-		TempData = TempImage->Data;
-	}
-
 	if (TempImage->Bpc == 1) {
 		for (c = 0; c < TempImage->Bpp; c++) {
 			for (i = c; i < TempImage->SizeOfPlane; i += TempImage->Bpp) {
@@ -1063,13 +833,11 @@ ILboolean iSavePsdInternal()
 	}
 	else {  // TempImage->Bpc == 2
 		ShortPtr = (ILushort*)TempData;
-		TempImage->SizeOfPlane /= 2;
 		for (c = 0; c < TempImage->Bpp; c++) {
-			for (i = c; i < TempImage->SizeOfPlane; i += TempImage->Bpp) {
+			for (i = c; i < TempImage->SizeOfPlane / 2; i += TempImage->Bpp) {
 				SaveBigUShort(ShortPtr[i]);
 			}
 		}
-		TempImage->SizeOfPlane *= 2;
 	}
 
 	if (TempData != TempImage->Data)
-- 
2.43.0


From 80f860c78d4fbf4ad93824bb5b96efc25a431aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 093/185] fix: BMP: files with an OS/2 header shorter than a
 BMP header loaded but left a read error

---
 DevIL/src-IL/src/il_bmp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 3612bbe..c518b9f 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -117,14 +117,17 @@ ILboolean iIsValidBmp()
 	BMPHEAD		Head;
 	OS2_HEAD	Os2Head;
 	ILboolean	IsValid;
+	iErrorState	Errors;
 
 	ILuint		FirstPos = itell();
 
+	iSaveErrors(&Errors);
 	iGetBmpHead(&Head);
 	iseek(FirstPos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	IsValid = iCheckBmp(&Head);
 	if (!IsValid) {
+		iRestoreErrors(&Errors);  // A shorter OS/2 header can still follow.
 		IsValid = iGetOS2Head(&Os2Head) && iCheckOS2(&Os2Head);
 		iseek(FirstPos, IL_SEEK_SET);
 	}
@@ -218,6 +221,7 @@ ILboolean iLoadBitmapInternal()
 	OS2_HEAD	Os2Head;
 	ILboolean	bBitmap;
 	ILuint		FirstPos;
+	iErrorState	Errors;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -225,8 +229,10 @@ ILboolean iLoadBitmapInternal()
 	}
 
 	FirstPos = itell();
+	iSaveErrors(&Errors);
 	iGetBmpHead(&Header);
 	if (!iCheckBmp(&Header)) {
+		iRestoreErrors(&Errors);  // A shorter OS/2 header can still follow.
 		iseek(FirstPos, IL_SEEK_SET);
 		if (!iGetOS2Head(&Os2Head) || !iCheckOS2(&Os2Head)) {
 			ilSetError(IL_INVALID_FILE_HEADER);
-- 
2.43.0


From b3451327092585d45165086b731bac5816814ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 094/185] fix: Sun raster: bit maps were inverted, colour maps
 and 32 bit pixels read wrongly, and run length encoded pictures misread

---
 DevIL/src-IL/src/il_sun.cpp | 281 ++++++++++++++++--------------------
 1 file changed, 125 insertions(+), 156 deletions(-)

diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 61f6ba4..65ef41c 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -18,7 +18,8 @@
 
 ILboolean	iLoadSunInternal(void);
 ILboolean	iIsValidSun(void);
-ILuint		iSunGetRle(ILubyte *Data, ILuint Length);
+struct SUNRLE;
+ILboolean	iSunGetRle(SUNRLE *Rle, ILubyte *Data, ILuint Length);
 
 typedef struct SUNHEAD
 {
@@ -127,12 +128,13 @@ ILboolean iCheckSun(SUNHEAD *Header)
 		return IL_FALSE;
 	if (Header->ColorMapType > IL_SUN_RGB_MAP)  //@TODO: Find out more about raw map.
 		return IL_FALSE;
+	// A map has three planes of at most 256 entries.
+	if (Header->ColorMapType == IL_SUN_RGB_MAP && (Header->ColorMapLength % 3 != 0 ||
+		(Header->Depth <= 8 && Header->ColorMapLength > (3u << Header->Depth))))
+		return IL_FALSE;
 	// Color map cannot be 0 if there is a map indicated.
 	if (Header->ColorMapType > IL_SUN_NO_MAP && Header->ColorMapLength == 0)
 		return IL_FALSE;
-	//@TODO: These wouldn't make sense.  Are they valid somehow?  Find out...
-	if ((Header->Depth == 1 || Header->Depth == 32) && Header->Type == IL_SUN_BYTE_ENC)
-		return IL_FALSE;
 
 	return IL_TRUE;
 }
@@ -196,12 +198,54 @@ ILboolean ilLoadSunL(const void *Lump, ILuint Size)
 }
 
 
+// The state of the run length decoder: runs may go on from one scanline to the next.
+struct SUNRLE
+{
+	ILuint	Count;
+	ILubyte	Value;
+};
+
+
+// Reads one (padded) scanline.
+static ILboolean iSunGetLine(SUNHEAD *Header, SUNRLE *Rle, ILubyte *Line, ILuint Length)
+{
+	if (Header->Type == IL_SUN_BYTE_ENC)
+		return iSunGetRle(Rle, Line, Length);
+	return iread(Line, 1, Length) == Length;
+}
+
+
+// Gives the image the colour map of the file, which is stored as planes.
+static ILboolean iSunGetMap(SUNHEAD *Header)
+{
+	ILuint	i, c, NumEnt = Header->ColorMapLength / 3;
+	ILint	Value;
+
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(Header->ColorMapLength, 1);
+	if (iCurImage->Pal.Palette == NULL)
+		return IL_FALSE;
+	iCurImage->Pal.PalSize = Header->ColorMapLength;
+	iCurImage->Pal.PalType = IL_PAL_RGB24;
+
+	for (c = 0; c < 3; c++) {
+		for (i = 0; i < NumEnt; i++) {
+			if ((Value = igetc()) == IL_EOF)
+				return IL_FALSE;
+			iCurImage->Pal.Palette[i * 3 + c] = (ILubyte)Value;
+		}
+	}
+
+	return IL_TRUE;
+}
+
+
 ILboolean iLoadSunInternal(void)
 {
+	static const ILubyte BlackWhite[6] = { 0xFF, 0xFF, 0xFF, 0x00, 0x00, 0x00 };  // Set bits are black.
 	SUNHEAD	Header;
-	BITFILE	*File;
-	ILuint	i, j, Padding, Offset, BytesRead;
-	ILubyte	PaddingData[16];
+	SUNRLE	Rle;
+	ILuint	i, j, LineLen;
+	ILubyte	*Line, *Data;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -216,181 +260,106 @@ ILboolean iLoadSunInternal(void)
 
 	switch (Header.Depth)
 	{
-		case 1:  //@TODO: Find a file to test this on.
-			File = bfile(iGetFile());
-			if (File == NULL)
-				return IL_FALSE;
-
-			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-				return IL_FALSE;
-			if (Header.ColorMapLength != 0) {
-				// Data should be an index into the color map, but the color map should only be RGB (6 bytes, 2 entries).
-				if (Header.ColorMapLength != 6) {
-					ilSetError(IL_INVALID_FILE_HEADER);
-					return IL_FALSE;
-				}
-			}
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
-			if (Header.ColorMapLength == 0) {  // Create the color map
-				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
-				iCurImage->Pal.Palette[1] = 0x00;
-				iCurImage->Pal.Palette[2] = 0x00;
-				iCurImage->Pal.Palette[3] = 0xFF;  // Entry for white
-				iCurImage->Pal.Palette[4] = 0xFF;
-				iCurImage->Pal.Palette[5] = 0xFF;
-			}
-			else {
-				iread(iCurImage->Pal.Palette, 1, 6);  // Read in the color map.
-			}
-			iCurImage->Pal.PalSize = 6;
-			iCurImage->Pal.PalType = IL_PAL_RGB24;
-
-			Padding = (16 - (iCurImage->Width % 16)) % 16;  // Has to be aligned on a 16-bit boundary.  The rest is padding.
-
-			// Reads the bits
-			for (i = 0; i < iCurImage->Height; i++) {
-				bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
-				//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
-				bread(PaddingData, 1, Padding, File);  // Skip padding bits.
-			}
-			break;
-
-
+		case 1:
 		case 8:
-			if (Header.ColorMapType == IL_SUN_NO_MAP) {  // Greyscale image
+			if (Header.Depth == 8 && Header.ColorMapType == IL_SUN_NO_MAP) {  // Greyscale image
 				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 			}
-			else {  // Colour-mapped image
-				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-				iCurImage->Pal.Palette = (ILubyte*)ialloc(Header.ColorMapLength);  // Allocate color map.
-				if (iCurImage->Pal.Palette == NULL)
-					return IL_FALSE;
-				if (iread(iCurImage->Pal.Palette, 1, Header.ColorMapLength) != Header.ColorMapLength) {  // Read color map.
-					ilSetError(IL_FILE_READ_ERROR);
-					return IL_FALSE;
-				}
-
-				iCurImage->Pal.PalSize = Header.ColorMapLength;
-				iCurImage->Pal.PalType = IL_PAL_RGB24;
-			}
-
-			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
-				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
-				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps);
-					if (Padding)  // Only possible for padding to be 0 or 1.
-						igetc();
-				}
-			}
-			else {  // RLE image data
-				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
-				}
-			}
-			break;
-
-		case 24:
-			if (Header.ColorMapLength > 0)  // Ignore any possible colormaps.
-				iseek(Header.ColorMapLength, IL_SEEK_CUR);
-
-			if (Header.Type == IL_SUN_RGB) {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
 			else {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
+				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 			}
-
-			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
-				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
-				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps);
-					if (Padding)  // Only possible for padding to be 0 or 1.
-						igetc();
-				}
-			}
-			else {  // RLE image data
-				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
-				}
-			}
-
 			break;
 
-		case 32:
-			if (Header.ColorMapLength > 0)  // Ignore any possible colormaps.
-				iseek(Header.ColorMapLength, IL_SEEK_CUR);
-
-			if (Header.Type == IL_SUN_RGB) {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-			else {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
+		default:  // 24 or 32
+			if (!ilTexImage(Header.Width, Header.Height, 1, 3, Header.Type == IL_SUN_RGB ? IL_RGB : IL_BGR, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
+	}
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-			// There is no padding at the end of each scanline.
-			Offset = 0;
-			for (i = 0; i < Header.Height; i++) {
-				for (j = 0; j < Header.Width; j++) {
-					igetc();  // There is a pad byte before each pixel.
-					iCurImage->Data[Offset]   = igetc();
-					iCurImage->Data[Offset+1] = igetc();
-					iCurImage->Data[Offset+2] = igetc();
-				}
-			}
-			break;
+	if (iCurImage->Format == IL_COLOUR_INDEX && Header.ColorMapType == IL_SUN_RGB_MAP) {
+		if (!iSunGetMap(&Header))
+			return IL_FALSE;
+	}
+	else {
+		if (Header.ColorMapLength > 0)  // Ignore any possible colormaps.
+			iseek(Header.ColorMapLength, IL_SEEK_CUR);
+		if (iCurImage->Format == IL_COLOUR_INDEX) {  // Create the color map
+			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);
+			if (iCurImage->Pal.Palette == NULL)
+				return IL_FALSE;
+			memcpy(iCurImage->Pal.Palette, BlackWhite, 6);
+			iCurImage->Pal.PalSize = 6;
+			iCurImage->Pal.PalType = IL_PAL_RGB24;
+		}
+	}
 
+	// Each scanline must be aligned on a 2-byte boundary.
+	if (Header.Depth == 1)
+		LineLen = Header.Width / 8 + (Header.Width % 8 != 0);
+	else if (Header.Depth == 32)
+		LineLen = Header.Width * 4;
+	else
+		LineLen = iCurImage->Bps;
+	LineLen += LineLen & 1;
+	Line = (ILubyte*)ialloc(LineLen);
+	if (Line == NULL)
+		return IL_FALSE;
 
-		default:  // Should have already been checked with iGetSunHead.
+	Rle.Count = 0;
+	Rle.Value = 0;
+	for (i = 0; i < iCurImage->Height; i++) {
+		if (!iSunGetLine(&Header, &Rle, Line, LineLen)) {
+			ifree(Line);
 			return IL_FALSE;
+		}
+		Data = iCurImage->Data + i * iCurImage->Bps;
+		if (Header.Depth == 1) {
+			for (j = 0; j < iCurImage->Width; j++)
+				Data[j] = (Line[j / 8] >> (7 - j % 8)) & 1;
+		}
+		else if (Header.Depth == 32) {  // There is a pad byte before each pixel.
+			for (j = 0; j < iCurImage->Width; j++)
+				memcpy(Data + j * 3, Line + j * 4 + 1, 3);
+		}
+		else {
+			memcpy(Data, Line, iCurImage->Bps);
+		}
 	}
+	ifree(Line);
 
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	return ilFixImage();
 }
 
 
-ILuint iSunGetRle(ILubyte *Data, ILuint Length)
+ILboolean iSunGetRle(SUNRLE *Rle, ILubyte *Data, ILuint Length)
 {
-	ILuint	i = 0, j;
-	ILubyte	Flag, Value;
-	ILuint	Count;
+	ILuint	i;
+	ILint	Flag, Value;
 
-	for (i = 0; i < Length; ) {
-		Flag = igetc();
-		if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
-			Count = igetc();
-			if (Count == 0) {  // 1 pixel of value (0x80)
-				*Data = 0x80;
-				Data++;
-				i++;
-			}
-			else {  // Here we have a run.
-				Value = igetc();
-				Count++;  // Should really be Count+1
-				for (j = 0; j < Count && i + j < Length; j++, Data++) {
-					*Data = Value;
+	for (i = 0; i < Length; i++) {
+		if (Rle->Count == 0) {
+			if ((Flag = igetc()) == IL_EOF)
+				return IL_FALSE;
+			Rle->Count = 1;
+			Rle->Value = (ILubyte)Flag;
+			if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
+				if ((Flag = igetc()) == IL_EOF)
+					return IL_FALSE;
+				if (Flag != 0) {  // Here we have a run.
+					if ((Value = igetc()) == IL_EOF)
+						return IL_FALSE;
+					Rle->Count = Flag + 1;  // Should really be Count+1
+					Rle->Value = (ILubyte)Value;
 				}
-				i += Count;
 			}
 		}
-		else {  // 1 byte of this value (cannot be 0x80)
-			*Data = Flag;
-			Data++;
-			i++;
-		}
+		Data[i] = Rle->Value;
+		Rle->Count--;
 	}
 
-	return i;
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From 6bda49fd7415758f27a57617acf9a3e03c32b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 095/185] fix: GIF: frames with palettes of their own wrote
 past the palette or were refused, partial, transparent and interlaced frames
 were composed wrongly, truncated data was accepted

---
 DevIL/src-IL/include/il_gif.h |   7 +-
 DevIL/src-IL/src/il_gif.cpp   | 832 +++++++++++++++-------------------
 2 files changed, 365 insertions(+), 474 deletions(-)

diff --git a/DevIL/src-IL/include/il_gif.h b/DevIL/src-IL/include/il_gif.h
index 98cc9e0..9a2bcb6 100644
--- a/DevIL/src-IL/include/il_gif.h
+++ b/DevIL/src-IL/include/il_gif.h
@@ -61,11 +61,10 @@ typedef struct GFXCONTROL
 ILboolean iLoadGifInternal(void);
 ILboolean ilLoadGifF(ILHANDLE File);
 ILboolean iIsValidGif(void);
-ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage);
+ILboolean iGetPalette(ILubyte Info, ILpal *Pal);
 ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead);
 ILboolean SkipExtensions(GFXCONTROL *Gfx);
-ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx);
-ILboolean RemoveInterlace(ILimage *image);
-ILboolean ConvertTransparent(ILimage *Image, ILubyte TransColour);
+struct GIFFRAME;
+ILboolean GifGetData(struct GIFFRAME *Frame);
 
 #endif//GIF_H
diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index 1df5586..be07096 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -21,8 +21,6 @@
 #include "il_gif.h"
 
 
-ILenum	GifType;
-
 //! Checks if the file specified in FileName is a valid Gif file.
 ILboolean ilIsValidGif(ILconst_string FileName)
 {
@@ -75,9 +73,12 @@ ILboolean iIsValidGif()
 {
 	char Header[6];
 	
-	if (iread(Header, 1, 6) != 6)
+	ILint Read;
+
+	Read = iread(Header, 1, 6);
+	iseek(-Read, IL_SEEK_CUR);
+	if (Read != 6)
 		return IL_FALSE;
-	iseek(-6, IL_SEEK_CUR);
 
 	if (!strnicmp(Header, "GIF87A", 6))
 		return IL_TRUE;
@@ -133,8 +134,9 @@ ILboolean ilLoadGifL(const void *Lump, ILuint Size)
 // Internal function used to load the Gif.
 ILboolean iLoadGifInternal()
 {
-	GIFHEAD	Header;
-	ILpal	GlobalPal;
+	GIFHEAD		Header;
+	ILpal		GlobalPal;
+	ILboolean	Result;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -143,22 +145,18 @@ ILboolean iLoadGifInternal()
 
 	GlobalPal.Palette = NULL;
 	GlobalPal.PalSize = 0;
+	GlobalPal.PalType = IL_PAL_NONE;
 
 	//read header
-	iread(&Header.Sig, 1, 6);
-  	Header.Width = GetLittleUShort();
-    Header.Height = GetLittleUShort();
+	if (iread(&Header.Sig, 1, 6) != 6)
+		return IL_FALSE;
+	Header.Width = GetLittleUShort();
+	Header.Height = GetLittleUShort();
 	Header.ColourInfo = igetc();
 	Header.Background = igetc();
 	Header.Aspect = igetc();
-		  
-	if (!strnicmp(Header.Sig, "GIF87A", 6)) {
-		GifType = GIF87A;
-	}
-	else if (!strnicmp(Header.Sig, "GIF89A", 6)) {
-		GifType = GIF89A;
-	}
-	else {
+
+	if (strnicmp(Header.Sig, "GIF87A", 6) && strnicmp(Header.Sig, "GIF89A", 6)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -166,61 +164,37 @@ ILboolean iLoadGifInternal()
 	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	imemclear(iCurImage->Data, iCurImage->SizeOfData);
 
 	// Check for a global colour map.
 	if (Header.ColourInfo & (1 << 7)) {
-		if (!iGetPalette(Header.ColourInfo, &GlobalPal, IL_FALSE, NULL)) {
+		if (!iGetPalette(Header.ColourInfo, &GlobalPal)) {
 			return IL_FALSE;
 		}
 	}
 
-	if (!GetImages(&GlobalPal, &Header))
+	Result = GetImages(&GlobalPal, &Header);
+	ifree(GlobalPal.Palette);
+	if (!Result)
 		return IL_FALSE;
 
-	if (GlobalPal.Palette && GlobalPal.PalSize)
-		ifree(GlobalPal.Palette);
-	GlobalPal.Palette = NULL;
-	GlobalPal.PalSize = 0;
-
 	return ilFixImage();
 }
 
 
-ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage)
+ILboolean iGetPalette(ILubyte Info, ILpal *Pal)
 {
-	ILuint PalSize, PalOffset = 0;
-
-	// If we have a local palette and have to use the previous frame as well,
-	//  we have to copy the palette from the previous frame, in addition
-	//  to the data, which we copy in GetImages.
-
 	// The ld(palettes bpp - 1) is stored in the lower
 	// 3 bits of Info (weird gif format ... :) )
-	PalSize = (1 << ((Info & 0x7) + 1)) * 3;
-	if (UsePrevPal) {
-		if (PrevImage == NULL) {  // Cannot use the previous palette if it does not exist.
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-		}
-		PalSize = PalSize + PrevImage->Pal.PalSize;
-		PalOffset = PrevImage->Pal.PalSize;
-	}
-	if (PalSize > 256 * 3) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return IL_FALSE;
-	}
-	Pal->PalSize = PalSize;
-
+	Pal->PalSize = (1 << ((Info & 0x7) + 1)) * 3;
 	Pal->PalType = IL_PAL_RGB24;
-	//Pal->Palette = (ILubyte*)ialloc(Pal->PalSize);
-	Pal->Palette = (ILubyte*)ialloc(256 * 3);
+	Pal->Palette = (ILubyte*)ialloc(Pal->PalSize);
 	if (Pal->Palette == NULL)
 		return IL_FALSE;
-	if (UsePrevPal)
-		memcpy(Pal->Palette, PrevImage->Pal.Palette, PrevImage->Pal.PalSize);  // Copy the old palette over.
-	if (iread(Pal->Palette + PalOffset, 1, Pal->PalSize) != Pal->PalSize) {  // Read the new palette.
+	if (iread(Pal->Palette, 1, Pal->PalSize) != Pal->PalSize) {  // Read the new palette.
 		ifree(Pal->Palette);
 		Pal->Palette = NULL;
+		Pal->PalSize = 0;
 		return IL_FALSE;
 	}
 
@@ -228,157 +202,249 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 }
 
 
-ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
+// A frame while it is being drawn
+struct GIFFRAME
 {
-	IMAGEDESC	ImageDesc, OldImageDesc;
-	GFXCONTROL	Gfx;
-	ILboolean	BaseImage = IL_TRUE;
-	ILimage		*Image = iCurImage, *TempImage = NULL, *PrevImage = NULL;
-	ILuint		NumImages = 0, i;
-	ILint		input;
-	ILuint		PalOffset;
-	iErrorState	Errors;
-
-	OldImageDesc.ImageInfo = 0; // to initialize the data with an harmless value 
-	Gfx.Used = IL_TRUE;
+	IMAGEDESC	Desc;
+	ILubyte		*Canvas;      // RGBA pixels of the picture
+	ILubyte		*Index;       // Index of each pixel that this frame has drawn
+	ILubyte		*Drawn;       // Set for each pixel that this frame has drawn
+	ILuint		CanvasWidth, CanvasHeight;
+	ILubyte		Pal[256][4];  // Palette of this frame
+	ILuint		NumEnt;       // Number of its entries
+	ILint		Transparent;  // Transparent index, -1 for none
+	ILboolean	First;
+};
 
-	while (!ieof()) {
-		ILubyte DisposalMethod = 1;
-		
-		i = itell();
-		if (!SkipExtensions(&Gfx))
-			goto error_clean;
-		i = itell();
 
-		if (!Gfx.Used)
-			DisposalMethod = (Gfx.Packed & 0x1C) >> 2;
+static void iGifPutPixel(GIFFRAME *Frame, ILuint x, ILuint y, ILubyte Index)
+{
+	size_t Pos;
+
+	x += Frame->Desc.OffX;
+	y += Frame->Desc.OffY;
+	if (x >= Frame->CanvasWidth || y >= Frame->CanvasHeight)
+		return;
+	if (Index == Frame->Transparent && !Frame->First)
+		return;  // Shows what was there before.
+
+	Pos = (size_t)y * Frame->CanvasWidth + x;
+	Frame->Index[Pos] = Index;
+	Frame->Drawn[Pos] = 1;
+	memcpy(Frame->Canvas + Pos * 4, Frame->Pal[Index], 4);
+	if (Index >= Frame->NumEnt)
+		Frame->NumEnt = Index + 1;
+}
 
-		//read image descriptor
-		iSaveErrors(&Errors);
-		ImageDesc.Separator = igetc();
-		if (ImageDesc.Separator != 0x2C) //end of image
-			break;
-		ImageDesc.OffX = GetLittleUShort();
-		ImageDesc.OffY = GetLittleUShort();
-		ImageDesc.Width = GetLittleUShort();
-		ImageDesc.Height = GetLittleUShort();
-		ImageDesc.ImageInfo = igetc();
-
-		if (ieof()) {
-			iRestoreErrors(&Errors);  // Gets rid of the IL_FILE_READ_ERROR that inevitably results.
-			break;
+
+// Gives Image the pixels of the canvas: with the palette of the frame extended by the colours of what is left
+//  from before, or as RGBA when these are too many.
+static ILboolean iGifSetImage(ILimage *Image, GIFFRAME *Frame)
+{
+	ILubyte	Pal[256][4];
+	ILuint	NumEnt = Frame->NumEnt, i, j, NumPix = Image->SizeOfData, Last = 0;
+	ILubyte	*Data;
+	ILboolean Alpha = Frame->Transparent >= 0;
+
+	memcpy(Pal, Frame->Pal, sizeof(Pal));
+	for (i = 0; i < NumPix; i++) {
+		ILubyte *Pixel = Frame->Canvas + (size_t)i * 4;
+		if (Frame->Drawn[i]) {
+			Image->Data[i] = Frame->Index[i];
+			continue;
+		}
+		if (Pixel[3] != 0xFF)
+			Alpha = IL_TRUE;
+		j = Last;
+		if (j >= NumEnt || memcmp(Pal[j], Pixel, 4)) {
+			for (j = 0; j < NumEnt && memcmp(Pal[j], Pixel, 4); j++);
+		}
+		if (j == NumEnt) {
+			if (NumEnt == 256)
+				break;
+			memcpy(Pal[NumEnt++], Pixel, 4);
 		}
+		Image->Data[i] = (ILubyte)j;
+		Last = j;
+	}
 
+	if (i < NumPix) {  // Too many colours
+		Data = (ILubyte*)ialloc((size_t)NumPix * 4);
+		if (Data == NULL)
+			return IL_FALSE;
+		memcpy(Data, Frame->Canvas, (size_t)NumPix * 4);
+		ifree(Image->Data);
+		Image->Data = Data;
+		Image->Format = IL_RGBA;
+		Image->Bpp = 4;
+		Image->Bps = Image->Width * 4;
+		Image->SizeOfPlane = Image->SizeOfData = NumPix * 4;
+		return IL_TRUE;
+	}
+
+	Image->Format = IL_COLOUR_INDEX;
+	Image->Pal.Palette = (ILubyte*)ialloc(NumEnt * (Alpha ? 4 : 3));
+	if (Image->Pal.Palette == NULL)
+		return IL_FALSE;
+	Image->Pal.PalSize = NumEnt * (Alpha ? 4 : 3);
+	Image->Pal.PalType = Alpha ? IL_PAL_RGBA32 : IL_PAL_RGB24;
+	for (i = 0; i < NumEnt; i++)
+		memcpy(Image->Pal.Palette + i * (Alpha ? 4 : 3), Pal[i], Alpha ? 4 : 3);
+
+	return IL_TRUE;
+}
 
-		if (!BaseImage) {
-			NumImages++;
-			Image->Next = ilNewImage(iCurImage->Width, iCurImage->Height, 1, 1, 1);
-			if (Image->Next == NULL)
-				goto error_clean;
-			//20040612: DisposalMethod controls how the new images data is to be combined
-			//with the old image. 0 means that it doesn't matter how they are combined,
-			//1 means keep the old image, 2 means set to background color, 3 is
-			//load the image that was in place before the current (this is not implemented
-			//here! (TODO?))
-			if (DisposalMethod == 2 || DisposalMethod == 3)
-				//Note that this is actually wrong, too: If the image has a local
-				//color table, we should really search for the best fit of the
-				//background color table and use that index (?). Furthermore,
-				//we should only memset the part of the image that is not read
-				//later (if we are sure that no parts of the read image are transparent).
-				if (!Gfx.Used && Gfx.Packed & 0x1)
-					memset(Image->Next->Data, Gfx.Transparent, Image->SizeOfData);
-				else
-					memset(Image->Next->Data, GifHead->Background, Image->SizeOfData);
-			else if (DisposalMethod == 1 || DisposalMethod == 0)
-				memcpy(Image->Next->Data, Image->Data, Image->SizeOfData);
-			//Interlacing has to be removed after the image was copied (line above)
-			if (OldImageDesc.ImageInfo & (1 << 6)) {  // Image is interlaced.
-				if (!RemoveInterlace(Image))
-					goto error_clean;
-			}
 
-			PrevImage = Image;
-			Image = Image->Next;
-			Image->Format = IL_COLOUR_INDEX;
-			Image->Origin = IL_ORIGIN_UPPER_LEFT;
-		} else {
-			BaseImage = IL_FALSE;
-			if (!Gfx.Used && Gfx.Packed & 0x1)
-				memset(Image->Data, Gfx.Transparent, Image->SizeOfData);
-			else
-			    memset(Image->Data, GifHead->Background, Image->SizeOfData);
+// Makes a rectangle of the canvas that of the frame's description in From.
+static void iGifRestore(GIFFRAME *Frame, ILubyte *From, ILubyte *Colour)
+{
+	ILuint x, y;
+
+	for (y = Frame->Desc.OffY; y < Frame->CanvasHeight && y < (ILuint)Frame->Desc.OffY + Frame->Desc.Height; y++) {
+		for (x = Frame->Desc.OffX; x < Frame->CanvasWidth && x < (ILuint)Frame->Desc.OffX + Frame->Desc.Width; x++) {
+			size_t Pos = ((size_t)y * Frame->CanvasWidth + x) * 4;
+			memcpy(Frame->Canvas + Pos, From ? From + Pos : Colour, 4);
 		}
+	}
+}
+
+
+ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
+{
+	GIFFRAME	Frame;
+	GFXCONTROL	Gfx;
+	ILpal		LocalPal, *Pal;
+	ILimage		*Image = NULL, *NewImage;
+	ILuint		i, NumPix = iCurImage->SizeOfData;
+	ILubyte		*Before = NULL, Background[4] = { 0, 0, 0, 0 };
+	ILubyte		DisposalMethod;
+	ILint		Separator;
 
-		Image->OffX = ImageDesc.OffX;
-		Image->OffY = ImageDesc.OffY;
-		PalOffset = 0;
+	Gfx.Used = IL_TRUE;
+	imemclear(&Frame, sizeof(Frame));
+	Frame.CanvasWidth = GifHead->Width;
+	Frame.CanvasHeight = GifHead->Height;
+	Frame.First = IL_TRUE;
+	Frame.Canvas = (ILubyte*)ialloc((size_t)NumPix * 4);
+	Frame.Index = (ILubyte*)ialloc(NumPix);
+	Frame.Drawn = (ILubyte*)ialloc(NumPix);
+	if (Frame.Canvas == NULL || Frame.Index == NULL || Frame.Drawn == NULL)
+		goto error_clean;
+
+	while (1) {
+		if (!SkipExtensions(&Gfx))
+			goto error_clean;
+
+		//read image descriptor
+		Separator = igetc();
+		if (Separator == IL_EOF)
+			goto error_clean;
+		if (Separator != 0x2C) //end of image
+			break;
+		Frame.Desc.OffX = GetLittleUShort();
+		Frame.Desc.OffY = GetLittleUShort();
+		Frame.Desc.Width = GetLittleUShort();
+		Frame.Desc.Height = GetLittleUShort();
+		if ((i = igetc()) == (ILuint)IL_EOF)
+			goto error_clean;
+		Frame.Desc.ImageInfo = (ILubyte)i;
+
+		DisposalMethod = Gfx.Used ? 0 : (Gfx.Packed & 0x1C) >> 2;
+		Frame.Transparent = (!Gfx.Used && (Gfx.Packed & 1)) ? Gfx.Transparent : -1;
 
 		// Check to see if the image has its own palette.
-		if (ImageDesc.ImageInfo & (1 << 7)) {
-			ILboolean UsePrevPal = IL_FALSE;
-			if (DisposalMethod == 1 && NumImages != 0) {  // Cannot be the first image for this.
-				PalOffset = PrevImage->Pal.PalSize;
-				UsePrevPal = IL_TRUE;
-			}
-			if (!iGetPalette(ImageDesc.ImageInfo, &Image->Pal, UsePrevPal, PrevImage)) {
+		LocalPal.Palette = NULL;
+		Pal = GlobalPal;
+		if (Frame.Desc.ImageInfo & (1 << 7)) {
+			if (!iGetPalette(Frame.Desc.ImageInfo, &LocalPal))
 				goto error_clean;
+			Pal = &LocalPal;
+		}
+		if (Pal->Palette == NULL) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto error_clean;
+		}
+		Frame.NumEnt = Pal->PalSize / 3;
+		for (i = 0; i < 256; i++) {
+			imemclear(Frame.Pal[i], 4);
+			if (i < Frame.NumEnt)
+				memcpy(Frame.Pal[i], Pal->Palette + i * 3, 3);
+			Frame.Pal[i][3] = (ILint)i == Frame.Transparent ? 0x00 : 0xFF;
+		}
+		ifree(LocalPal.Palette);
+
+		if (Frame.First) {
+			// What the frames leave free shows the background, unless the first one has a transparent colour.
+			if (Frame.Transparent >= 0)
+				memcpy(Background, Frame.Pal[Frame.Transparent], 4);
+			else if (GlobalPal->Palette != NULL && GifHead->Background < GlobalPal->PalSize / 3) {
+				memcpy(Background, GlobalPal->Palette + GifHead->Background * 3, 3);
+				Background[3] = 0xFF;
 			}
-		} else {
-			if (!iCopyPalette(&Image->Pal, GlobalPal)) {
+			for (i = 0; i < NumPix; i++)
+				memcpy(Frame.Canvas + (size_t)i * 4, Background, 4);
+		}
+		if (DisposalMethod == 3) {  // The picture has to come back after this frame.
+			if (Before == NULL)
+				Before = (ILubyte*)ialloc((size_t)NumPix * 4);
+			if (Before == NULL)
 				goto error_clean;
-			}
+			memcpy(Before, Frame.Canvas, (size_t)NumPix * 4);
 		}
 
-		if (!GifGetData(Image, Image->Data + ImageDesc.OffX + ImageDesc.OffY*Image->Width, Image->SizeOfData,
-				ImageDesc.Width, ImageDesc.Height, Image->Width, PalOffset, &Gfx)) {
-			memset(Image->Data, 0, Image->SizeOfData);  //@TODO: Remove this.  For debugging purposes right now.
+		memset(Frame.Drawn, 0, NumPix);
+		if (!GifGetData(&Frame)) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			goto error_clean;
 		}
 
-		// See if there was a valid graphics control extension.
-		if (!Gfx.Used) {
-			Gfx.Used = IL_TRUE;
-			Image->Duration = Gfx.Delay * 10;  // We want it in milliseconds.
-
-			// See if a transparent colour is defined.
-			if (Gfx.Packed & 1) {
-				if (!ConvertTransparent(Image, Gfx.Transparent)) {
-					goto error_clean;
-				}
-	    	}
+		if (Frame.First) {
+			NewImage = iCurImage;
+		}
+		else {
+			NewImage = ilNewImage(Frame.CanvasWidth, Frame.CanvasHeight, 1, 1, 1);
+			if (NewImage == NULL)
+				goto error_clean;
+			NewImage->Origin = IL_ORIGIN_UPPER_LEFT;
 		}
-		i = itell();
-		// Terminates each block.
-		if((input = igetc()) == IL_EOF)
+		if (!iGifSetImage(NewImage, &Frame)) {
+			if (!Frame.First)
+				ilCloseImage(NewImage);
 			goto error_clean;
-
-		if (input != 0x00)
-		    iseek(-1, IL_SEEK_CUR);
-		//	break;
-
-		OldImageDesc = ImageDesc;
+		}
+		NewImage->OffX = Frame.Desc.OffX;
+		NewImage->OffY = Frame.Desc.OffY;
+		if (!Gfx.Used)
+			NewImage->Duration = Gfx.Delay * 10;  // We want it in milliseconds.
+		Gfx.Used = IL_TRUE;
+		if (!Frame.First)
+			Image->Next = NewImage;
+		Image = NewImage;
+		Frame.First = IL_FALSE;
+
+		if (DisposalMethod == 2)
+			iGifRestore(&Frame, NULL, Background);
+		else if (DisposalMethod == 3)
+			iGifRestore(&Frame, Before, NULL);
 	}
 
-	//Deinterlace last image
-	if (OldImageDesc.ImageInfo & (1 << 6)) {  // Image is interlaced.
-		if (!RemoveInterlace(Image))
-			goto error_clean;
-	}
+	ifree(Before);
+	ifree(Frame.Canvas);
+	ifree(Frame.Index);
+	ifree(Frame.Drawn);
 
-	if (BaseImage)  // Was not able to load any images in...
+	if (Frame.First) {  // Was not able to load any images in...
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 
 error_clean:
-	Image = iCurImage->Next;
-    /*	while (Image) {
-		TempImage = Image;
-		Image = Image->Next;
-		ilCloseImage(TempImage);
-	}*/
+	ifree(Before);
+	ifree(Frame.Canvas);
+	ifree(Frame.Index);
+	ifree(Frame.Drawn);
 	return IL_FALSE;
 }
 
@@ -394,8 +460,10 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 	//	return IL_TRUE;  // No extensions in the GIF87a format.
 
 	do {
-		if((Code = igetc()) == IL_EOF)
-			return IL_FALSE;
+		do {  // An empty block can be left over.
+			if((Code = igetc()) == IL_EOF)
+				return IL_FALSE;
+		} while (Code == 0x00);
 
 		if (Code != 0x21) {
 			iseek(-1, IL_SEEK_CUR);
@@ -412,9 +480,9 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 				Gfx->Packed = igetc();
 				Gfx->Delay = GetLittleUShort();
 				Gfx->Transparent = igetc();
-				Gfx->Terminator = igetc();
-				if (ieof())
+				if((Code = igetc()) == IL_EOF)
 					return IL_FALSE;
+				Gfx->Terminator = (ILubyte)Code;
 				Gfx->Used = IL_FALSE;
 				break;
 			/*case 0xFE:
@@ -426,14 +494,9 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 				do {
 					if((Size = igetc()) == IL_EOF)
 						return IL_FALSE;
-					iseek(Size, IL_SEEK_CUR);
-				} while (!ieof() && Size != 0);
-		}
-
-		// @TODO:  Handle this better.
-		if (ieof()) {
-			ilSetError(IL_FILE_READ_ERROR);
-			return IL_FALSE;
+					if (Size != 0)
+						iseek(Size, IL_SEEK_CUR);
+				} while (Size != 0);
 		}
 	} while (1);
 
@@ -443,315 +506,144 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 
 #define MAX_CODES 4096
 
-ILint	curr_size, clear, ending, newcodes, top_slot, slot, navail_bytes = 0, nbits_left = 0;
-ILubyte	b1;
-ILubyte	byte_buff[257];
-ILubyte	*pbytes;
-ILubyte	*stack;
-ILubyte	*suffix;
-ILshort	*prefix;
-
-ILboolean success;
-
-ILuint code_mask[13] =
+// Reads codes from the data blocks.
+typedef struct GIFCODES
 {
-   0L,
-   0x0001L, 0x0003L,
-   0x0007L, 0x000FL,
-   0x001FL, 0x003FL,
-   0x007FL, 0x00FFL,
-   0x01FFL, 0x03FFL,
-   0x07FFL, 0x0FFFL
-};
-
-
-ILint get_next_code(void) {
-	ILint	i, t;
-	ILuint	ret;
-
-	//20050102: Tests for IL_EOF were added because this function
-	//crashed sometimes if igetc() returned IL_EOF
-	//(for example "table-add-column-before-active.gif" included in the
-	//mozilla source package)
-
-	if (!nbits_left) {
-		if (navail_bytes <= 0) {
-			pbytes = byte_buff;
-			navail_bytes = igetc();
-
-			if(navail_bytes == IL_EOF) {
-				success = IL_FALSE;
-				return ending;
-			}
-
-			if (navail_bytes) {
-				for (i = 0; i < navail_bytes; i++) {
-					if((t = igetc()) == IL_EOF) {
-						success = IL_FALSE;
-						return ending;
-					}
-					byte_buff[i] = t;
-				}
-			}
-		}
-		b1 = *pbytes++;
-		nbits_left = 8;
-		navail_bytes--;
-	}
-
-	ret = b1 >> (8 - nbits_left);
-	while (curr_size > nbits_left) {
-		if (navail_bytes <= 0) {
-			pbytes = byte_buff;
-			navail_bytes = igetc();
+	ILuint		Bits, NumBits;
+	ILint		BlockLeft;  // Bytes left in the current block
+	ILboolean	Ended;      // The block that ends the data was met.
+} GIFCODES;
 
-			if(navail_bytes == IL_EOF) {
-				success = IL_FALSE;
-				return ending;
-			}
 
-			if (navail_bytes) {
-				for (i = 0; i < navail_bytes; i++) {
-					if((t = igetc()) == IL_EOF) {
-						success = IL_FALSE;
-						return ending;
-					}
-					byte_buff[i] = t;
-				}
+// Returns the next code, -1 when there are no more.
+static ILint get_next_code(GIFCODES *Codes, ILuint Size)
+{
+	ILint Code;
+
+	while (Codes->NumBits < Size) {
+		if (Codes->BlockLeft == 0) {
+			if (Codes->Ended || (Codes->BlockLeft = igetc()) <= 0) {
+				Codes->Ended = Codes->Ended || Codes->BlockLeft == 0;
+				Codes->BlockLeft = 0;
+				return -1;
 			}
 		}
-		b1 = *pbytes++;
-		ret |= b1 << nbits_left;
-		nbits_left += 8;
-		navail_bytes--;
+		if ((Code = igetc()) == IL_EOF)
+			return -1;
+		Codes->BlockLeft--;
+		Codes->Bits |= (ILuint)Code << Codes->NumBits;
+		Codes->NumBits += 8;
 	}
-	nbits_left -= curr_size;
 
-	return (ret & code_mask[curr_size]);
+	Code = Codes->Bits & ((1 << Size) - 1);
+	Codes->Bits >>= Size;
+	Codes->NumBits -= Size;
+	return Code;
 }
 
-static void cleanUpGifLoadState()
-{
-	ifree(stack);
-	ifree(suffix);
-	ifree(prefix);
-
-}
 
-ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx)
+// Decodes the pixels of a frame.
+ILboolean GifGetData(GIFFRAME *Frame)
 {
-	ILubyte	*sp;
-	ILint	code, fc, oc;
-	ILubyte	DisposalMethod = 0;
-	ILint	c, size;
-	ILuint	i = 0, Read = 0, j = 0;
-	ILubyte	*DataPtr = Data;
-
-	if (!Gfx->Used)
-		DisposalMethod = (Gfx->Packed & 0x1C) >> 2;
-	if((size = igetc()) == IL_EOF)
+	GIFCODES	Codes;
+	ILubyte		*Stack, *Suffix;
+	ILushort	*Prefix;
+	ILint		Code, InCode, OldCode = -1, Clear, Ending, Slot, Size, First = 0;
+	ILuint		CodeSize, Sp, x = 0, y = 0, Pass = 0;
+	ILboolean	Interlaced = (Frame->Desc.ImageInfo & (1 << 6)) != 0, Done, Result = IL_FALSE;
+	static const ILuint Start[4] = { 0, 4, 2, 1 }, Step[4] = { 8, 8, 4, 2 };
+
+	if((Size = igetc()) == IL_EOF)
 		return IL_FALSE;
-
-	if (size < 2 || 9 < size) {
-		return IL_FALSE;
-	}
-
-	stack  = (ILubyte*)ialloc(MAX_CODES + 1);
-	suffix = (ILubyte*)ialloc(MAX_CODES + 1);
-	prefix = (ILshort*)ialloc(sizeof(*prefix) * (MAX_CODES + 1));
-	if (!stack || !suffix || !prefix)
-	{
-		cleanUpGifLoadState();
+	if (Size < 2 || 8 < Size)
 		return IL_FALSE;
-	}
 
-	curr_size = size + 1;
-	top_slot = 1 << curr_size;
-	clear = 1 << size;
-	ending = clear + 1;
-	slot = newcodes = ending + 1;
-	navail_bytes = nbits_left = 0;
-	oc = fc = 0;
-	sp = stack;
-
-	while ((c = get_next_code()) != ending && Read < Height) {
-		if (c == clear)
-		{
-			curr_size = size + 1;
-			slot = newcodes;
-			top_slot = 1 << curr_size;
-			while ((c = get_next_code()) == clear);
-			if (c == ending)
-				break;
-			if (c >= slot)
-				c = 0;
-			oc = fc = c;
-
-			if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == c && (Gfx->Packed & 0x1) != 0)
-				i++;
-			else if (i < Width)
-				DataPtr[i++] = c + PalOffset;
-
-			if (i == Width)
-			{
-				DataPtr += Stride;
-				i = 0;
-				Read += 1;
-                ++j;
-                if (j >= Height) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
-			}
+	Stack  = (ILubyte*)ialloc(MAX_CODES + 1);
+	Suffix = (ILubyte*)ialloc(MAX_CODES);
+	Prefix = (ILushort*)ialloc(sizeof(ILushort) * MAX_CODES);
+	if (!Stack || !Suffix || !Prefix)
+		goto finish;
+
+	imemclear(&Codes, sizeof(Codes));
+	Clear = 1 << Size;
+	Ending = Clear + 1;
+	Slot = Ending + 1;
+	CodeSize = Size + 1;
+	Done = Frame->Desc.Width == 0 || Frame->Desc.Height == 0;
+
+	while (!Done) {
+		Code = get_next_code(&Codes, CodeSize);
+		if (Code < 0) {
+			if (!Codes.Ended)  // The file is cut short.
+				goto finish;
+			break;
+		}
+		if (Code == Ending)
+			break;
+		if (Code == Clear) {
+			CodeSize = Size + 1;
+			Slot = Ending + 1;
+			OldCode = -1;
+			continue;
 		}
-		else
-		{
-			code = c;
-            //BG-2007-01-10: several fixes for incomplete GIFs
-			if (code >= slot)
-			{
-				code = oc;
-                if (sp >= stack + MAX_CODES) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
-                *sp++ = fc;
-			}
 
-            if (code >= MAX_CODES)
-                return IL_FALSE; 
-                while (code >= newcodes)
-				{
-                    if (sp >= stack + MAX_CODES)
-					{
-                        cleanUpGifLoadState();
-                        return IL_FALSE;
-                    }
-                    *sp++ = suffix[code];
-                    code = prefix[code];
-                }
-            
-                if (sp >= stack + MAX_CODES) {
-                cleanUpGifLoadState();
-                return IL_FALSE;
-            }
-
-            *sp++ = (ILbyte)code;
-			if (slot < top_slot)
-			{
-				fc = code;
-				suffix[slot]   = fc;
-				prefix[slot++] = oc;
-				oc = c;
-			}
-			if (slot >= top_slot && curr_size < 12)
-			{
-				top_slot <<= 1;
-				curr_size++;
-			}
-			while (sp > stack)
-			{
-				sp--;
-				if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == *sp && (Gfx->Packed & 0x1) != 0)
-					i++;
-				else if (i < Width)
-					DataPtr[i++] = *sp + PalOffset;
-
-				if (i == Width)
-				{
-					i = 0;
-					Read += 1;
-                    j = (j+1) % Height;
-					// Needs to start from Data, not Image->Data.
-					DataPtr = Data + j * Stride;
-				}
+		// Puts the string of the code on the stack, backwards.
+		InCode = Code;
+		Sp = 0;
+		if (Code >= Slot) {
+			if (Code > Slot || OldCode < 0)
+				goto finish;
+			Stack[Sp++] = (ILubyte)First;
+			Code = OldCode;
+		}
+		while (Code > Ending) {
+			if (Sp >= MAX_CODES)
+				goto finish;
+			Stack[Sp++] = Suffix[Code];
+			Code = Prefix[Code];
+		}
+		First = Code;
+		Stack[Sp++] = (ILubyte)Code;
+
+		if (OldCode >= 0 && Slot < MAX_CODES) {
+			Suffix[Slot] = (ILubyte)First;
+			Prefix[Slot++] = (ILushort)OldCode;
+			if (Slot == (1 << CodeSize) && CodeSize < 12)
+				CodeSize++;
+		}
+		OldCode = InCode;
+
+		while (Sp > 0 && !Done) {
+			iGifPutPixel(Frame, x, y, Stack[--Sp]);
+			if (++x < Frame->Desc.Width)
+				continue;
+			x = 0;
+			if (!Interlaced) {
+				y++;
+				Done = y >= Frame->Desc.Height;
+				continue;
 			}
+			for (y += Step[Pass]; y >= Frame->Desc.Height && Pass < 3; y = Start[Pass])
+				Pass++;
+			Done = y >= Frame->Desc.Height;
 		}
 	}
-	cleanUpGifLoadState();
-	return IL_TRUE;
-}
-
-
-/*From the GIF spec:
-
-  The rows of an Interlaced images are arranged in the following order:
-
-      Group 1 : Every 8th. row, starting with row 0.              (Pass 1)
-      Group 2 : Every 8th. row, starting with row 4.              (Pass 2)
-      Group 3 : Every 4th. row, starting with row 2.              (Pass 3)
-      Group 4 : Every 2nd. row, starting with row 1.              (Pass 4)
-*/
-
-ILboolean RemoveInterlace(ILimage *image)
-{
-	ILubyte *NewData;
-	ILuint	i, j = 0;
-
-	NewData = (ILubyte*)ialloc(image->SizeOfData);
-	if (NewData == NULL)
-		return IL_FALSE;
-
-	//changed 20041230: images with offsety != 0 were not
-	//deinterlaced correctly before...
-	for (i = 0; i < image->OffY; i++, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
 
-	for (i = 0 + image->OffY; i < image->Height; i += 8, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
+	// Skips what is left of the data.
+	while (!Codes.Ended) {
+		if (Codes.BlockLeft != 0)
+			iseek(Codes.BlockLeft, IL_SEEK_CUR);
+		if ((Codes.BlockLeft = igetc()) == IL_EOF)
+			goto finish;
+		Codes.Ended = Codes.BlockLeft == 0;
 	}
+	Result = IL_TRUE;
 
-	for (i = 4 + image->OffY; i < image->Height; i += 8, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 2 + image->OffY; i < image->Height; i += 4, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 1 + image->OffY; i < image->Height; i += 2, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	ifree(image->Data);
-	image->Data = NewData;
-
-	return IL_TRUE;
-}
-
-
-// Uses the transparent colour index to make an alpha channel.
-ILboolean ConvertTransparent(ILimage *Image, ILubyte TransColour)
-{
-	ILubyte	*Palette;
-	ILuint	i, j;
-
-	if (!Image->Pal.Palette || !Image->Pal.PalSize) {
-		ilSetError(IL_INTERNAL_ERROR);
-		return IL_FALSE;
-	}
-
-	Palette = (ILubyte*)ialloc(Image->Pal.PalSize / 3 * 4);
-	if (Palette == NULL)
-		return IL_FALSE;
-
-	for (i = 0, j = 0; i < Image->Pal.PalSize; i += 3, j += 4) {
-		Palette[j  ] = Image->Pal.Palette[i  ];
-		Palette[j+1] = Image->Pal.Palette[i+1];
-		Palette[j+2] = Image->Pal.Palette[i+2];
-		if (j/4 == TransColour)
-			Palette[j+3] = 0x00;
-		else
-			Palette[j+3] = 0xFF;
-	}
-
-	ifree(Image->Pal.Palette);
-	Image->Pal.Palette = Palette;
-	Image->Pal.PalSize = Image->Pal.PalSize / 3 * 4;
-	Image->Pal.PalType = IL_PAL_RGBA32;
-
-	return IL_TRUE;
+finish:
+	ifree(Stack);
+	ifree(Suffix);
+	ifree(Prefix);
+	return Result;
 }
 
 #endif //IL_NO_GIF
-- 
2.43.0


From dc53194c18f44c66e105760ceaa14afcfffb1854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 096/185] fix: DDS: sizes in the header were trusted, masks and
 565 colours scaled wrongly, DXT2/4 and partial cube maps broken, mipmaps
 leaked on failure

---
 DevIL/src-IL/include/il_dds.h |   4 +-
 DevIL/src-IL/src/il_dds.cpp   | 692 +++++++++++-----------------------
 2 files changed, 219 insertions(+), 477 deletions(-)

diff --git a/DevIL/src-IL/include/il_dds.h b/DevIL/src-IL/include/il_dds.h
index d7db8e5..a31962c 100644
--- a/DevIL/src-IL/include/il_dds.h
+++ b/DevIL/src-IL/include/il_dds.h
@@ -347,8 +347,8 @@ ILboolean	DecompressAti1n();
 ILboolean	DecompressRXGB();
 ILboolean	iConvFloat16ToFloat32(ILuint* dest, ILushort* src, ILuint size);
 ILboolean	DecompressFloat(ILuint lCompFormat);
-void		CorrectPreMult();
-void		GetBitsFromMask(ILuint Mask, ILuint *ShiftLeft, ILuint *ShiftRight);
+void		CorrectPreMult(ILimage *lImage);
+void		GetBitsFromMask(ILuint Mask, ILuint *ShiftRight);
 ILboolean	iSaveDdsInternal(void);
 ILboolean	WriteHeader(ILimage *Image, ILenum DXTCFormat, ILuint CubeFlags);
 ILushort	*CompressTo565(ILimage *Image);
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a1df617..5441723 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -129,8 +129,8 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 	Header->ddsCaps4 = GetLittleUInt();
 	Header->TextureStage = GetLittleUInt();
 
-	if (Head.Depth == 0)
-		Head.Depth = 1;
+	if (Header->Depth == 0)
+		Header->Depth = 1;
 
 	return IL_TRUE;
 }
@@ -154,9 +154,11 @@ ILboolean iIsValidDds()
 {
 	ILboolean	IsValid;
 	DDSHEAD		Head;
+	ILuint		Pos = itell();
 
+	memset(&Head, 0, sizeof(DDSHEAD));
 	iGetDdsHead(&Head);
-	iseek(-(ILint)sizeof(DDSHEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	iseek(Pos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	IsValid = iCheckDds(&Head);
 
@@ -185,7 +187,7 @@ ILboolean iCheckDds(DDSHEAD *Head)
 // Internal function used to check if the HEADER is a valid DirectX 10 extension header.
 ILboolean iCheckDxt10(DXT10HEAD *Head)
 {
-	if (Head->resourceDimension < 2 && Head->resourceDimension > 4)
+	if (Head->resourceDimension < 2 || Head->resourceDimension > 4)
 		return IL_FALSE;
 	if (Head->dxgiFormat > DXGI_FORMAT_V408)
 		return IL_FALSE;
@@ -239,8 +241,9 @@ ILboolean ilLoadDdsL(const void *Lump, ILuint Size)
 
 void Check16BitComponents(DDSHEAD *Header)
 {
-	if (Header->RGBBitCount != 32)
-		Has16BitComponents = IL_FALSE;
+	Has16BitComponents = IL_FALSE;
+	if (Header->RGBBitCount != 32 || (Header->Flags2 & DDS_FOURCC))
+		return;
 	// a2b10g10r10 format
 	if (Header->RBitMask == 0x3FF00000 && Header->GBitMask == 0x000FFC00 && Header->BBitMask == 0x000003FF
 		&& Header->RGBAlphaBitMask == 0xC0000000)
@@ -258,16 +261,16 @@ void Check16BitComponents(DDSHEAD *Header)
 ILubyte iCompFormatToBpp(ILenum Format)
 {
 	//non-compressed (= non-FOURCC) codes
-	if (Format == PF_LUMINANCE || Format == PF_LUMINANCE_ALPHA || Format == PF_ARGB)
-		return Head.RGBBitCount/8;
+	if (Format == PF_LUMINANCE || Format == PF_LUMINANCE_ALPHA || Format == PF_ARGB || Format == PF_RGB)
+		return (ILubyte)(Head.RGBBitCount/8);
 
 	//fourcc formats
-	else if (Format == PF_RGB || Format == PF_3DC || Format == PF_RXGB)
+	else if (Format == PF_3DC || Format == PF_RXGB)
 		return 3;
 	else if (Format == PF_ATI1N)
 		return 1;
-	//else if (Format == PF_R16F)
-	//	return 2;
+	else if (Format == PF_R16F)
+		return 2;
 	else if (Format == PF_A16B16G16R16 || Format == PF_A16B16G16R16F
 		|| Format == PF_G32R32F)
 		return 8;
@@ -309,91 +312,113 @@ ILubyte iCompFormatToChannelCount(ILenum Format)
 }
 
 
-ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
+// Is this a format with blocks of 4x4 pixels?
+static ILboolean iIsBlockFormat(ILuint CompFormat)
 {
-	ILuint	i;
-	ILubyte	Bpp, Channels, Bpc;
-	ILimage *startImage;
+	return (CompFormat >= PF_DXT1 && CompFormat <= PF_ATI1N) || CompFormat == PF_RXGB;
+}
 
-	if (IsDXT10)  //@TODO: Get this working with the DirectX 10 textures
-		return IL_FALSE;
 
-	CompData = NULL;
+// Calculates the number of bytes that an image of the current dimensions has in the file.
+//  The sizes in the header cannot be relied on.  Returns 0 if the format or the size is not supported.
+static ILuint iGetDataSize(ILuint CompFormat, ILboolean IsDXT10)
+{
+	ILuint64	Size, Bytes;
+
+	if (Width <= 0 || Height <= 0 || Depth <= 0)
+		return 0;
 
-	Bpp = iCompFormatToBpp(CompFormat);
-	Channels = iCompFormatToChannelCount(CompFormat);
-	Bpc = iCompFormatToBpc(CompFormat);
-	if (CompFormat == PF_LUMINANCE && Head.RGBBitCount == 16 && Head.RBitMask == 0xFFFF) {  //@TODO: This is a HACK.
-		Bpc = 2; Bpp = 2;
+	if (IsDXT10) {
+		if (CompFormat != DXGI_FORMAT_R8G8B8A8_UNORM && CompFormat != DXGI_FORMAT_B8G8R8A8_UNORM
+			&& CompFormat != DXGI_FORMAT_B8G8R8A8_UNORM_SRGB)
+			return 0;
+		Size = (ILuint64)Width * Height;
+		Bytes = 4;
+	}
+	else if (iIsBlockFormat(CompFormat)) {
+		Size = (((ILuint64)Width + 3) / 4) * (((ILuint64)Height + 3) / 4);
+		Bytes = (CompFormat == PF_DXT1 || CompFormat == PF_ATI1N) ? 8 : 16;
+	}
+	else {
+		Size = (ILuint64)Width * Height;
+		Bytes = iCompFormatToBpp(CompFormat);
 	}
 
-	startImage = Image;
-	// Run through cube map possibilities
-	for (i = 0; i < CUBEMAP_SIDES; i++) {
-		// Reset each time
-		Width = Head.Width;
-		Height = Head.Height;
-		Depth = Head.Depth;
-		if (Head.ddsCaps2 & CubemapDirections[i]) {
-			if (i != 0) {
-				Image->Faces = ilNewImage(Width, Height, Depth, Channels, Bpc);
-				if (Image->Faces == NULL)
-					return IL_FALSE;
+	// Also makes sure that the multiplications cannot overflow.
+	if (Size > 0x7FFFFFFF || Size * Depth > 0x7FFFFFFF || Size * Depth * Bytes > 0x7FFFFFFF)
+		return 0;
+	return (ILuint)(Size * Depth * Bytes);
+}
 
-				Image = Image->Faces;
-
-				if (CompFormat == PF_R16F
-					|| CompFormat == PF_G16R16F
-					|| CompFormat == PF_A16B16G16R16F
-					|| CompFormat == PF_R32F
-					|| CompFormat == PF_G32R32F
-					|| CompFormat == PF_A32B32G32R32F) {
-					// DevIL's format autodetection doesn't work for
-					//  float images...correct this.
-					Image->Type = IL_FLOAT;
-					Image->Bpp = Channels;
-				}
 
-				ilBindImage(ilGetCurName()); // Set to parent image first.
-				//ilActiveImage(i); //@TODO: now Image == iCurImage...globals SUCK, fix this!!!
-				ilActiveFace(i);
-			}
+// Keeps a copy of the compressed data when this is wanted.
+static ILboolean iKeepDxtcData(ILimage *lImage, ILuint CompFormat)
+{
+	if (!((CompFormat >= PF_DXT1 && CompFormat <= PF_DXT5) || CompFormat == PF_RXGB))
+		return IL_TRUE;
+	if (ilGetInteger(IL_KEEP_DXTC_DATA) != IL_TRUE || CompData == NULL)
+		return IL_TRUE;
 
-			if (!ReadData(CompFormat, IsDXT10))
-				return IL_FALSE;
+	lImage->DxtcData = (ILubyte*)ialloc(CompSize);
+	if (lImage->DxtcData == NULL)
+		return IL_FALSE;
+	lImage->DxtcFormat = CompFormat == PF_RXGB ? IL_RXGB : CompFormat - PF_DXT1 + IL_DXT1;
+	lImage->DxtcSize = CompSize;
+	memcpy(lImage->DxtcData, CompData, CompSize);
 
-			if (!AllocImage(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+	return IL_TRUE;
+}
 
-			Image->CubeFlags = CubemapDirections[i];
 
-			if (!DdsDecompress(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
+{
+	ILuint		i;
+	ILboolean	bFirst = IL_TRUE, bRet = IL_TRUE;
+	ILimage		*BaseImage = Image;
 
-			if (!ReadMipmaps(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
+	if (IsDXT10)  //@TODO: Get this working with the DirectX 10 textures
+		return IL_FALSE;
+
+	// Run through cube map possibilities
+	for (i = 0; i < CUBEMAP_SIDES && bRet; i++) {
+		if (!(Head.ddsCaps2 & CubemapDirections[i]))
+			continue;
+
+		// Reset each time
+		Width = Head.Width;
+		Height = Head.Height;
+		Depth = 1;
+
+		bRet = ReadData(CompFormat, IsDXT10);
+		if (bRet && !bFirst) {
+			Image->Faces = ilNewImage(1, 1, 1, 1, 1);
+			if (Image->Faces == NULL) {
+				bRet = IL_FALSE;
+				break;
 			}
+			Image = Image->Faces;
+			iCurImage = Image;  // ilTexImage works on the current image.
+		}
+
+		bRet = bRet && AllocImage(CompFormat, IsDXT10) && DdsDecompress(CompFormat, IsDXT10);
+		if (bRet) {
+			bFirst = IL_FALSE;
+			Image->CubeFlags = CubemapDirections[i];
+			bRet = ReadMipmaps(CompFormat, IsDXT10);
 		}
 	}
 
+	iCurImage = Image = BaseImage;
 	if (CompData) {
 		ifree(CompData);
 		CompData = NULL;
 	}
+	if (bRet && bFirst) {  // A cube map without a face
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	if (!bRet)
+		return IL_FALSE;
 
 	ilBindImage(ilGetCurName());  // Set to parent image first.
 	return ilFixImage();
@@ -402,7 +427,6 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 
 ILboolean iLoadDdsInternal()
 {
-	ILuint		BlockSize = 0;
 	ILuint		CompFormat;
 	ILboolean	IsDXT10 = IL_FALSE;
 
@@ -426,7 +450,7 @@ ILboolean iLoadDdsInternal()
 		return IL_FALSE;
 	}
 
-	BlockSize = DecodePixelFormat(&CompFormat);
+	DecodePixelFormat(&CompFormat);
 	if (CompFormat == PF_UNKNOWN)
 	{
 		ilSetError(IL_INVALID_FILE_HEADER);
@@ -456,11 +480,11 @@ ILboolean iLoadDdsInternal()
 	// Needed for DXT10?
 	Check16BitComponents(&Head);
 
-	// Microsoft bug, they're not following their own documentation.
-	if (!(Head.Flags1 & (DDS_LINEARSIZE | DDS_PITCH))
-		|| Head.LinearSize == 0) {
-		Head.Flags1 |= DDS_LINEARSIZE;
-		Head.LinearSize = BlockSize;
+	if (!IsDXT10 && !(Head.Flags2 & DDS_FOURCC) && Head.RGBBitCount != 8
+		&& Head.RGBBitCount != 16 && Head.RGBBitCount != 24 && Head.RGBBitCount != 32)
+	{
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
 	}
 
 	Image = iCurImage;
@@ -777,48 +801,6 @@ void AdjustVolumeTexture(DDSHEAD *Head, ILuint CompFormat, ILboolean IsDXT10)
 		Depth = 1;
 	}
 
-	switch (CompFormat)
-	{
-		case PF_ARGB:
-		case PF_RGB:
-		case PF_LUMINANCE:
-		case PF_LUMINANCE_ALPHA:
-			//don't use the iCompFormatToBpp() function because this way
-			//argb images with only 8 bits (eg. a1r2g3b2) work as well
-			Head->LinearSize = IL_MAX(1,Head->Width) * IL_MAX(1,Head->Height) *
-				(Head->RGBBitCount / 8);
-			break;
-	
-		case PF_DXT1:
-
-		case PF_ATI1N:
-			Head->LinearSize = ((Head->Width+3)/4) * ((Head->Height+3)/4) * 8;
-			break;
-
-		case PF_DXT2:
-		case PF_DXT3:
-		case PF_DXT4:
-		case PF_DXT5:
-		case PF_3DC:
-		case PF_RXGB:
-			Head->LinearSize = ((Head->Width+3)/4) * ((Head->Height+3)/4) * 16;
-			break;
-
-		case PF_A16B16G16R16:
-		case PF_R16F:
-		case PF_G16R16F:
-		case PF_A16B16G16R16F:
-		case PF_R32F:
-		case PF_G32R32F:
-		case PF_A32B32G32R32F:
-			Head->LinearSize = IL_MAX(1,Head->Width) * IL_MAX(1,Head->Height) *
-				iCompFormatToBpp(CompFormat);
-			break;
-	}
-
-	Head->Flags1 |= DDS_LINEARSIZE;
-	Head->LinearSize *= Head->Depth;
-
 	return;
 }
 
@@ -826,56 +808,26 @@ void AdjustVolumeTexture(DDSHEAD *Head, ILuint CompFormat, ILboolean IsDXT10)
 // Reads the compressed data
 ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	Bps;
-	ILint	y, z;
-	ILubyte	*Temp;
-
 	if (CompData) {
 		ifree(CompData);
 		CompData = NULL;
 	}
 
-	if (Head.Flags1 & DDS_LINEARSIZE) {
-		//Head.LinearSize = Head.LinearSize * Depth;
-
-		CompData = (ILubyte*)ialloc(Head.LinearSize);
-		if (CompData == NULL) {
-			return IL_FALSE;
-		}
-
-		if (iread(CompData, 1, Head.LinearSize) != (ILuint)Head.LinearSize) {
-			ifree(CompData);
-			CompData = NULL;
-			return IL_FALSE;
-		}
+	CompSize = iGetDataSize(CompFormat, IsDXT10);
+	if (CompSize == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
 	}
-	else {
-		if (IsDXT10)
-			Bps = Head.LinearSize;  //@TODO: Head.RGBBitCount is always 0 from the texconv.exe tool?
-		else
-			Bps = Width * Head.RGBBitCount / 8;
-		CompSize = Bps * Height * Depth;
-		if (CompSize == 0) {
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-		}
 
-		CompData = (ILubyte*)ialloc(CompSize);
-		if (CompData == NULL) {
-			return IL_FALSE;
-		}
+	CompData = (ILubyte*)ialloc(CompSize);
+	if (CompData == NULL) {
+		return IL_FALSE;
+	}
 
-		Temp = CompData;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				if (iread(Temp, 1, Bps) != Bps) {
-					ifree(CompData);
-					CompData = NULL;
-					return IL_FALSE;
-				}
-				Temp += Bps;
-			}
-		}
+	if (iread(CompData, 1, CompSize) != CompSize) {
+		ifree(CompData);
+		CompData = NULL;
+		return IL_FALSE;
 	}
 
 	return IL_TRUE;
@@ -954,14 +906,8 @@ ILboolean AllocImage(ILuint CompFormat, ILboolean IsDXT10)
 
 				if (!ilTexImage(Width, Height, Depth, channels, format, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
-				if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && CompData) {
-					iCurImage->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
-					if (iCurImage->DxtcData == NULL)
-						return IL_FALSE;
-					iCurImage->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
-					iCurImage->DxtcSize = Head.LinearSize;
-					memcpy(iCurImage->DxtcData, CompData, iCurImage->DxtcSize);
-				}
+				if (!iKeepDxtcData(iCurImage, CompFormat))
+					return IL_FALSE;
 				break;
 		}
 	}
@@ -1069,67 +1015,24 @@ ILboolean DdsDecompress(ILuint CompFormat, ILboolean IsDXT10)
 
 ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	i, CompFactor=0;
-	ILubyte	Bpp, Channels, Bpc;
-	ILimage	*StartImage, *TempImage;
-	ILuint	LastLinear;
-	ILuint	minW, minH;
-
-	ILboolean isCompressed = IL_FALSE;
+	ILuint	i;
+	ILimage	*StartImage;
 
 	if (IsDXT10)  //@TODO: Add in mipmap support
 		return IL_TRUE;
 
-	Bpp = iCompFormatToBpp(CompFormat);
-	Channels = iCompFormatToChannelCount(CompFormat);
-	Bpc = iCompFormatToBpc(CompFormat);
-	if (CompFormat == PF_LUMINANCE && Head.RGBBitCount == 16 && Head.RBitMask == 0xFFFF) { //HACK
-		Bpc = 2; Bpp = 2;
-	}
-
-	//This doesn't work for images which first mipmap (= the image
-	//itself) has width or height < 4
-	//if (Head.Flags1 & DDS_LINEARSIZE) {
-	//	CompFactor = (Width * Height * Depth * Bpp) / Head.LinearSize;
-	//}
-	switch (CompFormat)
-	{
-		case PF_DXT1:
-			// This is officially 6, we have 8 here because DXT1 may contain alpha.
-			CompFactor = 8;
-			break;
-		case PF_DXT2:
-		case PF_DXT3:
-		case PF_DXT4:
-		case PF_DXT5:
-			CompFactor = 4;
-			break;
-		case PF_RXGB:
-		case PF_3DC:
-			// This is officially 4 for 3dc, but that's bullshit :) There's no
-			//  alpha data in 3dc images.
-			CompFactor = 3;
-			break;
-
-		case PF_ATI1N:
-			CompFactor = 2;
-			break;
-		default:
-			CompFactor = 1;
-	}
+	//some .dds-files have their mipmap flag set,
+	//but a mipmapcount of 0.
+	if (!(Head.Flags1 & DDS_MIPMAPCOUNT) || Head.MipMapCount == 0)
+		return IL_TRUE;
 
 	StartImage = Image;
 
-	if (!(Head.Flags1 & DDS_MIPMAPCOUNT) || Head.MipMapCount == 0) {
-		//some .dds-files have their mipmap flag set,
-		//but a mipmapcount of 0. Because mipMapCount is an uint, 0 - 1 gives
-		//overflow - don't let this happen:
-		Head.MipMapCount = 1;
-	}
-
-	LastLinear = Head.LinearSize;
 	for (i = 0; i < Head.MipMapCount - 1; i++)
 	{
+		if (Width == 1 && Height == 1 && Depth == 1)  // There are no smaller mipmaps.
+			break;
+
 		Depth = Depth / 2;
 		Width = Width / 2;
 		Height = Height / 2;
@@ -1141,78 +1044,29 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		if (Height == 0) 
 			Height = 1;
 
-		Image->Mipmaps = ilNewImage(Width, Height, Depth, Channels, Bpc);
+		if (!ReadData(CompFormat, IsDXT10))
+			goto mip_fail;
+
+		Image->Mipmaps = ilNewImageFull(Width, Height, Depth, Image->Bpp, Image->Format, Image->Type, NULL);
 		if (Image->Mipmaps == NULL)
 			goto mip_fail;
 		Image = Image->Mipmaps;
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
-		if (Head.Flags1 & DDS_LINEARSIZE) {
-			if (CompFormat == PF_R16F
-				|| CompFormat == PF_G16R16F
-				|| CompFormat == PF_A16B16G16R16F
-				|| CompFormat == PF_R32F
-				|| CompFormat == PF_G32R32F
-				|| CompFormat == PF_A32B32G32R32F) {
-				Head.LinearSize = Width * Height * Depth * Bpp;
-
-				//DevIL's format autodetection doesn't work for
-				//float images...correct this
-				Image->Type = IL_FLOAT;
-				Image->Bpp = Channels;
-			}
-			else if (CompFormat == PF_A16B16G16R16)
-				Head.LinearSize = Width * Height * Depth * Bpp;
-			else if (CompFormat != PF_RGB && CompFormat != PF_ARGB
-				&& CompFormat != PF_LUMINANCE
-				&& CompFormat != PF_LUMINANCE_ALPHA) {
-
-				//compressed format
-				minW = (((Width+3)/4))*4;
-				minH = (((Height+3)/4))*4;
-				Head.LinearSize = (minW * minH * Depth * Bpp) / CompFactor;
-
-				isCompressed = IL_TRUE;
-			}
-			else {
-				//don't use Bpp to support argb images with less than 32 bits
-				Head.LinearSize = Width * Height * Depth * (Head.RGBBitCount >> 3);
-			}
-		}
-		else {
-			Head.LinearSize >>= 1;
-		}
-
-		if (!ReadData(CompFormat, IsDXT10))
+		if (!iKeepDxtcData(Image, CompFormat))
 			goto mip_fail;
 
-		if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && isCompressed == IL_TRUE && CompData) {
-			Image->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
-			if (Image->DxtcData == NULL)
-				return IL_FALSE;
-			Image->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
-			Image->DxtcSize = Head.LinearSize;
-			memcpy(Image->DxtcData, CompData, Image->DxtcSize);
-		}
-
 		if (!DdsDecompress(CompFormat, IsDXT10))
 			goto mip_fail;
 	}
 
-	Head.LinearSize = LastLinear;
 	Image = StartImage;
 
 	return IL_TRUE;
 
 mip_fail:
 	Image = StartImage;
-	StartImage = StartImage->Mipmaps;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
+	ilCloseImage(Image->Mipmaps);
 	Image->Mipmaps = NULL;
 	return IL_FALSE;
 }
@@ -1231,11 +1085,11 @@ void DxtcReadColors(const ILubyte* Data, Color8888* Out)
 	r1 = (Data[3] & 0xF8) >> 3;
 
 	Out[0].r = r0 << 3 | r0 >> 2;
-	Out[0].g = g0 << 2 | g0 >> 3;
+	Out[0].g = g0 << 2 | g0 >> 4;
 	Out[0].b = b0 << 3 | b0 >> 2;
 
 	Out[1].r = r1 << 3 | r1 >> 2;
-	Out[1].g = g1 << 2 | g1 >> 3;
+	Out[1].g = g1 << 2 | g1 >> 4;
 	Out[1].b = b1 << 3 | b1 >> 2;
 }
 
@@ -1249,8 +1103,8 @@ void DxtcReadColor(ILushort Data, Color8888* Out)
 	r = (Data & 0xF800) >> 11;
 
 	Out->r = r << 3 | r >> 2;
-	Out->g = g << 2 | g >> 3;
-	Out->b = b << 3 | r >> 2;
+	Out->g = g << 2 | g >> 4;
+	Out->b = b << 3 | b >> 2;
 }
 
 
@@ -1262,9 +1116,9 @@ ILboolean DecompressDXT2(ILimage *lImage, ILubyte *lCompData)
 {
 	// Can do color & alpha same as dxt3, but color is pre-multiplied 
 	//   so the result will be wrong unless corrected. 
-	if (!DecompressDXT3(Image, CompData))
+	if (!DecompressDXT3(lImage, lCompData))
 		return IL_FALSE;
-	CorrectPreMult();
+	CorrectPreMult(lImage);
 
 	return IL_TRUE;
 }
@@ -1347,11 +1201,11 @@ ILboolean DecompressDXT4(ILimage *lImage, ILubyte *lCompData)
 {
 	// Can do color & alpha same as dxt5, but color is pre-multiplied 
 	//   so the result will be wrong unless corrected. 
-	if (!DecompressDXT5(Image, CompData))
+	if (!DecompressDXT5(lImage, lCompData))
 		return IL_FALSE;
-	CorrectPreMult();
+	CorrectPreMult(lImage);
 
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 
@@ -1487,6 +1341,7 @@ ILboolean Decompress3Dc()
 	Temp = CompData;
 	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				Temp2 = Temp + 8;
@@ -1578,6 +1433,7 @@ ILboolean DecompressAti1n()
 	Temp = CompData;
 	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				//Read palette
@@ -1631,7 +1487,6 @@ ILboolean DecompressRXGB()
 {
 	int			x, y, z, i, j, k, Select;
 	ILubyte		*Temp;
-	Color565	*color_0, *color_1;
 	Color8888	colours[4], *col;
 	ILuint		bitmask, Offset;
 	ILubyte		alphas[8], *alphamask;
@@ -1650,21 +1505,11 @@ ILboolean DecompressRXGB()
 				alphas[1] = Temp[1];
 				alphamask = Temp + 2;
 				Temp += 8;
-				color_0 = ((Color565*)Temp);
-				color_1 = ((Color565*)(Temp+2));
+				DxtcReadColors(Temp, colours);
 				bitmask = ((ILuint*)Temp)[1];
+				UInt(&bitmask);
 				Temp += 8;
 
-				colours[0].r = color_0->nRed << 3;
-				colours[0].g = color_0->nGreen << 2;
-				colours[0].b = color_0->nBlue << 3;
-				colours[0].a = 0xFF;
-
-				colours[1].r = color_1->nRed << 3;
-				colours[1].g = color_1->nGreen << 2;
-				colours[1].b = color_1->nBlue << 3;
-				colours[1].a = 0xFF;
-
 				// Four-color block: derive the other two colors.    
 				// 00 = color_0, 01 = color_1, 10 = color_2, 11 = color_3
 				// These 2-bit codes correspond to the 2-bit fields 
@@ -1672,12 +1517,10 @@ ILboolean DecompressRXGB()
 				colours[2].b = (2 * colours[0].b + colours[1].b + 1) / 3;
 				colours[2].g = (2 * colours[0].g + colours[1].g + 1) / 3;
 				colours[2].r = (2 * colours[0].r + colours[1].r + 1) / 3;
-				colours[2].a = 0xFF;
 
 				colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
 				colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
 				colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
-				colours[3].a = 0xFF;
 
 				k = 0;
 				for (j = 0; j < 4; j++) {
@@ -1721,7 +1564,7 @@ ILboolean DecompressRXGB()
 				// Note: Have to separate the next two loops,
 				//	it operates on a 6-byte system.
 				// First three bytes
-				bits = *((ILint*)alphamask);
+				bits = (alphamask[0]) | (alphamask[1] << 8) | (alphamask[2] << 16);
 				for (j = 0; j < 2; j++) {
 					for (i = 0; i < 4; i++) {
 						// only put pixels out < width or height
@@ -1734,7 +1577,7 @@ ILboolean DecompressRXGB()
 				}
 
 				// Last three bytes
-				bits = *((ILint*)&alphamask[3]);
+				bits = (alphamask[3]) | (alphamask[4] << 8) | (alphamask[5] << 16);
 				for (j = 2; j < 4; j++) {
 					for (i = 0; i < 4; i++) {
 						// only put pixels out < width or height
@@ -1903,15 +1746,16 @@ ILboolean DecompressFloat(ILuint lCompFormat)
 }
 
 
-void CorrectPreMult()
+void CorrectPreMult(ILimage *lImage)
 {
-	ILuint i;
+	ILuint i, c, Value;
 
-	for (i = 0; i < Image->SizeOfData; i += 4) {
-		if (Image->Data[i+3] != 0) {  // Cannot divide by 0.
-			Image->Data[i]   = (ILubyte)(((ILuint)Image->Data[i]   << 8) / Image->Data[i+3]);
-			Image->Data[i+1] = (ILubyte)(((ILuint)Image->Data[i+1] << 8) / Image->Data[i+3]);
-			Image->Data[i+2] = (ILubyte)(((ILuint)Image->Data[i+2] << 8) / Image->Data[i+3]);
+	for (i = 0; i + 3 < lImage->SizeOfData; i += 4) {
+		if (lImage->Data[i+3] != 0) {  // Cannot divide by 0.
+			for (c = 0; c < 3; c++) {
+				Value = ((ILuint)lImage->Data[i+c] * 255 + lImage->Data[i+3] / 2) / lImage->Data[i+3];
+				lImage->Data[i+c] = (ILubyte)IL_MIN(Value, 255);
+			}
 		}
 	}
 
@@ -1921,22 +1765,47 @@ void CorrectPreMult()
 
 ILboolean DecompressARGBDX10(ILuint CompFormat)
 {
-	//@TODO: Will certainly fail if iCurImage->SizeOfData != "Compressed" Size
-	memcpy(iCurImage->Data, CompData, iCurImage->SizeOfData);
+	if (Image->SizeOfData != CompSize)
+		return IL_FALSE;
+	memcpy(Image->Data, CompData, Image->SizeOfData);
 	return IL_TRUE;
 }
 
 
+// Reads one uncompressed pixel.
+static ILuint iReadPixel(const ILubyte *Temp, ILuint TempBpp)
+{
+	ILuint i, Pixel = 0;
+
+	for (i = 0; i < TempBpp; i++)
+		Pixel |= (ILuint)Temp[i] << (i * 8);
+
+	return Pixel;
+}
+
+
+// Returns the channel that Mask selects, with its maximum scaled to Max.
+static ILuint iGetMasked(ILuint Pixel, ILuint Mask, ILuint Max)
+{
+	ILuint Shift, Value, MaskMax;
+
+	GetBitsFromMask(Mask, &Shift);
+	MaskMax = Mask >> Shift;
+	Value = (Pixel & Mask) >> Shift;
+	if (MaskMax == 0 || MaskMax == Max)
+		return Value;
+
+	return (ILuint)(((ILuint64)Value * Max + MaskMax / 2) / MaskMax);
+}
+
+
 ILboolean DecompressARGB(ILuint CompFormat)
 {
-	ILuint ReadI = 0, TempBpp, i;
-	ILuint RedL, RedR;
-	ILuint GreenL, GreenR;
-	ILuint BlueL, BlueR;
-	ILuint AlphaL, AlphaR;
+	ILuint	ReadI, TempBpp, i;
+	ILuint	AlphaMask = Head.RGBAlphaBitMask;
 	ILubyte	*Temp;
 
-	if (Has16BitComponents)
+	if (Has16BitComponents && CompFormat == PF_ARGB)
 		return DecompressARGB16(CompFormat);
 
 	if (!CompData)
@@ -1947,194 +1816,68 @@ ILboolean DecompressARGB(ILuint CompFormat)
 		return IL_TRUE;
 	}
 
-	GetBitsFromMask(Head.RBitMask, &RedL, &RedR);
-	GetBitsFromMask(Head.GBitMask, &GreenL, &GreenR);
-	GetBitsFromMask(Head.BBitMask, &BlueL, &BlueR);
-	GetBitsFromMask(Head.RGBAlphaBitMask, &AlphaL, &AlphaR);
 	Temp = CompData;
 	TempBpp = Head.RGBBitCount / 8;
 
 	for (i = 0; i < Image->SizeOfData; i += Image->Bpp) {
-
-		//@TODO: This is SLOOOW...
-		//but the old version crashed in release build under
-		//winxp (and xp is right to stop this code - I always
-		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
-			if (TempBpp == 3) { //this branch is extra-SLOOOW
-				ReadI =
-					*Temp
-					| ((*(Temp + 1)) << 8)
-					| ((*(Temp + 2)) << 16);
-			}
-			else if (TempBpp == 1)
-				ReadI = *((ILubyte*)Temp);
-			else if (TempBpp == 2)
-				ReadI = Temp[0] | (Temp[1] << 8);
-		}
-		else
-			ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | (Temp[3] << 24);
+		ReadI = iReadPixel(Temp, TempBpp);
 		Temp += TempBpp;
 
-		Image->Data[i] = ((ReadI & Head.RBitMask) >> RedR) << RedL;
+		Image->Data[i] = (ILubyte)iGetMasked(ReadI, Head.RBitMask, 0xFF);
 
 		if (Image->Bpp >= 3) {
-			Image->Data[i+1] = ((ReadI & Head.GBitMask) >> GreenR) << GreenL;
-			Image->Data[i+2] = ((ReadI & Head.BBitMask) >> BlueR) << BlueL;
-
-			if (Image->Bpp == 4) {
-				Image->Data[i+3] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-				if (AlphaL >= 7) {
-					Image->Data[i+3] = Image->Data[i+3] ? 0xFF : 0x00;
-				}
-				else if (AlphaL >= 4) {
-					Image->Data[i+3] = Image->Data[i+3] | (Image->Data[i+3] >> 4);
-				}
-			}
-		}
-		else if (Image->Bpp == 2) {
-			Image->Data[i+1] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-			if (AlphaL >= 7) {
-				Image->Data[i+1] = Image->Data[i+1] ? 0xFF : 0x00;
-			}
-			else if (AlphaL >= 4) {
-				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+3] >> 4);
-			}
+			Image->Data[i+1] = (ILubyte)iGetMasked(ReadI, Head.GBitMask, 0xFF);
+			Image->Data[i+2] = (ILubyte)iGetMasked(ReadI, Head.BBitMask, 0xFF);
 		}
+		if (Image->Bpp == 2 || Image->Bpp == 4)
+			Image->Data[i + Image->Bpp - 1] = AlphaMask ? (ILubyte)iGetMasked(ReadI, AlphaMask, 0xFF) : 0xFF;
 	}
 
 	return IL_TRUE;
 }
 
 
-// This function simply counts how many contiguous bits are in the mask.
-ILuint CountBitsFromMask(ILuint Mask)
-{
-	ILuint		i, TestBit = 0x01, Count = 0;
-	ILboolean	FoundBit = IL_FALSE;
-
-	for (i = 0; i < 32; i++, TestBit <<= 1) {
-		if (Mask & TestBit) {
-			if (!FoundBit)
-				FoundBit = IL_TRUE;
-			Count++;
-		}
-		else if (FoundBit)
-			return Count;
-	}
-
-	return Count;
-}
-
-
 // Same as DecompressARGB, but it works on images with more than 8 bits
-//  per channel, such as a2r10g10b10 and a2b10g10r10.
+//  per channel, such as a2r10g10b10 and a2b10g10r10.  The masks for red
+//  and blue are swapped in these files.
 ILboolean DecompressARGB16(ILuint CompFormat)
 {
-	ILuint ReadI = 0, TempBpp, i;
-	ILuint RedL, RedR;
-	ILuint GreenL, GreenR;
-	ILuint BlueL, BlueR;
-	ILuint AlphaL, AlphaR;
-	ILuint RedPad, GreenPad, BluePad, AlphaPad;
-	ILubyte	*Temp;
+	ILuint		ReadI, TempBpp, i;
+	ILubyte		*Temp;
+	ILushort	*Data;
 
 	if (!CompData)
 		return IL_FALSE;
 
-	GetBitsFromMask(Head.RBitMask, &RedL, &RedR);
-	GetBitsFromMask(Head.GBitMask, &GreenL, &GreenR);
-	GetBitsFromMask(Head.BBitMask, &BlueL, &BlueR);
-	GetBitsFromMask(Head.RGBAlphaBitMask, &AlphaL, &AlphaR);
-	RedPad   = 16 - CountBitsFromMask(Head.RBitMask);
-	GreenPad = 16 - CountBitsFromMask(Head.GBitMask);
-	BluePad  = 16 - CountBitsFromMask(Head.BBitMask);
-	AlphaPad = 16 - CountBitsFromMask(Head.RGBAlphaBitMask);
-
-	RedL = RedL + RedPad;
-	GreenL = GreenL + GreenPad;
-	BlueL = BlueL + BluePad;
-	AlphaL = AlphaL + AlphaPad;
-
 	Temp = CompData;
 	TempBpp = Head.RGBBitCount / 8;
+	Data = (ILushort*)Image->Data;
 
 	for (i = 0; i < Image->SizeOfData / 2; i += Image->Bpp) {
-
-		//@TODO: This is SLOOOW...
-		//but the old version crashed in release build under
-		//winxp (and xp is right to stop this code - I always
-		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
-			if (TempBpp == 3) { //this branch is extra-SLOOOW
-				ReadI =
-					*Temp
-					| ((*(Temp + 1)) << 8)
-					| ((*(Temp + 2)) << 16);
-			}
-			else if (TempBpp == 1)
-				ReadI = *((ILubyte*)Temp);
-			else if (TempBpp == 2)
-				ReadI = Temp[0] | (Temp[1] << 8);
-		}
-		else
-			ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | (Temp[3] << 24);
+		ReadI = iReadPixel(Temp, TempBpp);
 		Temp += TempBpp;
 
-		((ILushort*)Image->Data)[i+2] = ((ReadI & Head.RBitMask) >> RedR) << RedL;
-
-		if (Image->Bpp >= 3) {
-			((ILushort*)Image->Data)[i+1] = ((ReadI & Head.GBitMask) >> GreenR) << GreenL;
-			((ILushort*)Image->Data)[i] = ((ReadI & Head.BBitMask) >> BlueR) << BlueL;
-
-			if (Image->Bpp == 4) {
-				((ILushort*)Image->Data)[i+3] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-				if (AlphaL >= 7) {
-					((ILushort*)Image->Data)[i+3] = ((ILushort*)Image->Data)[i+3] ? 0xFF : 0x00;
-				}
-				else if (AlphaL >= 4) {
-					((ILushort*)Image->Data)[i+3] = ((ILushort*)Image->Data)[i+3] | (((ILushort*)Image->Data)[i+3] >> 4);
-				}
-			}
-		}
-		else if (Image->Bpp == 2) {
-			((ILushort*)Image->Data)[i+1] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-			if (AlphaL >= 7) {
-				((ILushort*)Image->Data)[i+1] = ((ILushort*)Image->Data)[i+1] ? 0xFF : 0x00;
-			}
-			else if (AlphaL >= 4) {
-				((ILushort*)Image->Data)[i+1] = ((ILushort*)Image->Data)[i+1] | (Image->Data[i+3] >> 4);
-			}
-		}
+		Data[i]   = (ILushort)iGetMasked(ReadI, Head.BBitMask, 0xFFFF);
+		Data[i+1] = (ILushort)iGetMasked(ReadI, Head.GBitMask, 0xFFFF);
+		Data[i+2] = (ILushort)iGetMasked(ReadI, Head.RBitMask, 0xFFFF);
+		Data[i+3] = (ILushort)iGetMasked(ReadI, Head.RGBAlphaBitMask, 0xFFFF);
 	}
 
 	return IL_TRUE;
 }
 
 
-// @TODO:  Look at using the BSF/BSR operands for inline ASM here.
-void GetBitsFromMask(ILuint Mask, ILuint *ShiftLeft, ILuint *ShiftRight)
+// Calculates the position of the lowest bit of the mask.
+void GetBitsFromMask(ILuint Mask, ILuint *ShiftRight)
 {
-	ILuint Temp, i;
-
-	if (Mask == 0) {
-		*ShiftLeft = *ShiftRight = 0;
+	*ShiftRight = 0;
+	if (Mask == 0)
 		return;
-	}
 
-	Temp = Mask;
-	for (i = 0; i < 32; i++, Temp >>= 1) {
-		if (Temp & 1)
-			break;
-	}
-	*ShiftRight = i;
-
-	// Temp is preserved, so use it again:
-	for (i = 0; i < 8; i++, Temp >>= 1) {
-		if (!(Temp & 1))
-			break;
+	while (!(Mask & 1)) {
+		Mask >>= 1;
+		(*ShiftRight)++;
 	}
-	*ShiftLeft = 8 - i;
 
 	return;
 }
@@ -2744,9 +2487,8 @@ ILboolean DecompressDXT1(ILimage *lImage, ILubyte *lCompData)
 					colours[2].r = (colours[0].r + colours[1].r) / 2;
 					//colours[2].a = 0xFF;
 
-					colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
-					colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
-					colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
+					// Transparent black
+					colours[3].r = colours[3].g = colours[3].b = 0x00;
 					colours[3].a = 0x00;
 				}
 
-- 
2.43.0


From ee42a11eab1303ece66ec8d4ab9f02432b0095a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 097/185] fix: seeking beyond the end of a memory block was
 refused but not in a file, and seeking before the start of an image in a file
 was accepted but not in a memory block

---
 DevIL/src-IL/src/il_files.cpp | 38 +++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index f255b18..d5ca1df 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -589,6 +589,30 @@ void iUnCache()
 }
 
 
+// Seeks in the file itself.  Positions are relative to where the image starts in
+//  it, and what comes before cannot be reached.
+static ILint iSeekRFileFrom(ILint Offset, ILuint Mode)
+{
+	ILint64	NewPos;
+	ILint	OldPos, Ret;
+
+	if (Mode == IL_SEEK_END) {
+		OldPos = TellRProc(FileRead);
+		Ret = SeekRProc(FileRead, Offset, Mode);
+		if (Ret == 0 && TellRProc(FileRead) < (ILint)ReadFileStart) {
+			SeekRProc(FileRead, OldPos, IL_SEEK_SET);
+			return 1;
+		}
+		return Ret;
+	}
+
+	NewPos = (ILint64)Offset + (Mode == IL_SEEK_CUR ? TellRProc(FileRead) : (ILint)ReadFileStart);
+	if (NewPos < (ILint64)ReadFileStart || NewPos > 0x7FFFFFFF)
+		return 1;
+	return SeekRProc(FileRead, (ILint)NewPos, IL_SEEK_SET);
+}
+
+
 ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 {
 	if (UseCache) {
@@ -596,10 +620,13 @@ ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 
 		// The file itself is ahead of what has been handed out from the cache.
 		if (Mode == IL_SEEK_CUR) {
-			Offset += CacheStartPos + CachePos;
+			ILint64 Pos = (ILint64)CacheStartPos + CachePos + Offset;
+			if (Pos < 0 || Pos > 0x7FFFFFFF)
+				return 1;
+			Offset = (ILint)Pos;
 			Mode = IL_SEEK_SET;
 		}
-		Ret = SeekRProc(FileRead, Mode == IL_SEEK_SET ? Offset + ReadFileStart : Offset, Mode);
+		Ret = iSeekRFileFrom(Offset, Mode);
 		if (Ret == 0) {
 			CacheStartPos = TellRProc(FileRead) - ReadFileStart;
 			CachePos = CacheAvail = 0;
@@ -607,9 +634,7 @@ ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 		return Ret;
 	}
 
-	if (Mode == IL_SEEK_SET)
-		Offset += ReadFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
-	return SeekRProc(FileRead, Offset, Mode);
+	return iSeekRFileFrom(Offset, Mode);
 }
 
 
@@ -636,7 +661,8 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 			return 1;
 	}
 
-	if (NewPos < 0 || NewPos > (ILint64)ReadLumpSize)
+	// Like in a file, it is possible to go beyond the end, but not to read there.
+	if (NewPos < 0 || NewPos > 0x7FFFFFFF)
 		return 1;
 	ReadLumpPos = (ILuint)NewPos;
 
-- 
2.43.0


From 27916481e912376ce44413ed6e25855571012667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 098/185] fix: HDR: a malformed resolution line left the size
 undefined, a run at the start of a line read before the buffer, truncated
 data was accepted, row orders were ignored

---
 DevIL/src-IL/include/il_hdr.h |   3 +-
 DevIL/src-IL/src/il_hdr.cpp   | 110 ++++++++++++++++++++--------------
 2 files changed, 67 insertions(+), 46 deletions(-)

diff --git a/DevIL/src-IL/include/il_hdr.h b/DevIL/src-IL/include/il_hdr.h
index 2c30b0a..c73ea47 100644
--- a/DevIL/src-IL/include/il_hdr.h
+++ b/DevIL/src-IL/include/il_hdr.h
@@ -24,6 +24,7 @@ typedef struct HDRHEADER
 {
 	char Signature[10]; //must be "#?RADIANCE"
 	ILuint Width, Height;
+	ILboolean BottomUp, Mirrored;  // orientation
 } IL_PACKSTRUCT HDRHEADER;
 
 #ifdef _WIN32
@@ -38,6 +39,6 @@ ILboolean ilLoadHdrF(ILHANDLE file);
 ILboolean iLoadHdrInternal();
 ILboolean iSaveHdrInternal();
 
-void ReadScanline(ILubyte *scanline, ILuint w);
+ILboolean ReadScanline(ILubyte *scanline, ILuint w);
 
 #endif//HDR_H
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index e5b47a2..fd7972f 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -72,8 +72,13 @@ ILboolean iGetHdrHead(HDRHEADER *Header)
 	char x[3], y[3]; //changed 20050217: added space for the '\0' char
 	char buff[81]; // 01-19-2009: Added space for the '\0'.
 	ILuint count = 0;
+	ILint Width = 0, Height = 0;
 
-	iread(Header->Signature, 1, 10);
+	if (iread(Header->Signature, 1, 10) != 10)
+		return IL_FALSE;
+	// The short signature is followed by header lines already.
+	if (!strnicmp(Header->Signature, "#?RGBE", 6) && iseek(-4, IL_SEEK_CUR) != 0)
+		return IL_FALSE;
 
 	//skip lines until an empty line is found.
 	//this marks the end of header information,
@@ -107,17 +112,17 @@ ILboolean iGetHdrHead(HDRHEADER *Header)
 	}
 	buff[count] = '\0';
 
-	//note that this is not the 100% correct way to load hdr images:
-	//in a perfect world we would check if there's a +/- X/Y in front
-	//of width and heigth and mirror + rotate the image after decoding
-	//according to that. But HDRShop doesn't do that either (and that's
-	//my reference program :) ) and it's just a rotate and a mirror,
-	//nothing that really changes the appearance of the loaded image...
-	//(The code as it is now assumes that y contains "-Y" and x contains
-	//"+X" after the following line)
-	
+	// Resolution line: rows from the top (-Y) or the bottom (+Y), pixels from the
+	//  left (+X) or the right (-X).  Column by column storage is not supported.
 	// The 2 has to be in the %s format specifier to prevent buffer overruns.
-	sscanf(buff, "%2s %d %2s %d", y, &Header->Height, x, &Header->Width);
+	if (sscanf(buff, "%2s %d %2s %d", y, &Height, x, &Width) != 4 || Width <= 0 || Height <= 0)
+		return IL_FALSE;
+	if ((y[0] != '-' && y[0] != '+') || y[1] != 'Y' || (x[0] != '-' && x[0] != '+') || x[1] != 'X')
+		return IL_FALSE;
+	Header->Width = Width;
+	Header->Height = Height;
+	Header->BottomUp = y[0] == '+';
+	Header->Mirrored = x[0] == '-';
 
 	return IL_TRUE;
 }
@@ -218,16 +223,26 @@ ILboolean iLoadHdrInternal()
 	if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_FLOAT, NULL)) {
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	iCurImage->Origin = Header.BottomUp ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT;
 
 	//read image data
 	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
 		iPreCache(iCurImage->Width / 8 * iCurImage->Height);
 
-	data = (ILfloat*)iCurImage->Data;
 	scanline = (ILubyte*)ialloc(Header.Width*4);
+	if (scanline == NULL) {
+		iUnCache();
+		return IL_FALSE;
+	}
 	for (i = 0; i < Header.Height; ++i) {
-		ReadScanline(scanline, Header.Width);
+		if (!ReadScanline(scanline, Header.Width)) {
+			iUnCache();
+			ifree(scanline);
+			return IL_FALSE;
+		}
+		data = (ILfloat*)iCurImage->Data + (size_t)i * Header.Width * 3;
+		if (Header.Mirrored)
+			data += (Header.Width - 1) * 3;
 
 		//convert hdrs internal format to floats
 		for (j = 0; j < 4*Header.Width; j += 4) {
@@ -251,7 +266,7 @@ ILboolean iLoadHdrInternal()
 			data[0] = (r/255.0f)*t;
 			data[1] = (g/255.0f)*t;
 			data[2] = (b/255.0f)*t;
-			data += 3;
+			data += Header.Mirrored ? -3 : 3;
 		}
 	}
 	iUnCache();
@@ -260,34 +275,40 @@ ILboolean iLoadHdrInternal()
 	return ilFixImage();
 }
 
-void ReadScanline(ILubyte *scanline, ILuint w) {
-	ILubyte *runner;
-	ILuint r, g, b, e, read, shift;
+// Reads one scanline of w pixels; fails when the data ends early or is inconsistent.
+ILboolean ReadScanline(ILubyte *scanline, ILuint w) {
+	ILubyte *runner, Pixel[4];
+	ILuint read, shift;
 
-	r = igetc();
-	g = igetc();
-	b = igetc();
-	e = igetc();
+	if (iread(Pixel, 1, 4) != 4)
+		return IL_FALSE;
 
 	//check if the scanline is in the new format
 	//if so, e, r, g, g are stored separated and are
 	//rle-compressed independently.
-	if (r == 2 && g == 2) {
-		ILuint length = (b << 8) | e;
-		ILuint j, t, k;
+	if (Pixel[0] == 2 && Pixel[1] == 2 && Pixel[2] < 128) {
+		ILuint length = (Pixel[2] << 8) | Pixel[3];
+		ILuint j, k;
+		ILint t, val;
 		if (length > w)
 			length = w; //fix broken files
+		else if (length < w)
+			imemclear(scanline, w * 4);
 		for (k = 0; k < 4; ++k) {
 			runner = scanline + k;
 			j = 0;
 			while (j < length) {
 				t = igetc();
+				if (t == IL_EOF)
+					return IL_FALSE;
 				if (t > 128) { //Run?
-					ILubyte val = igetc();
+					val = igetc();
+					if (val == IL_EOF)
+						return IL_FALSE;
 					t &= 127;
 					//copy current byte
 					while (t > 0 && j < length) {
-						*runner = val;
+						*runner = (ILubyte)val;
 						runner += 4;
 						--t;
 						++j;
@@ -296,7 +317,10 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				else { //No Run.
 					//read new bytes
 					while (t > 0 && j < length) {
-						*runner = igetc();
+						val = igetc();
+						if (val == IL_EOF)
+							return IL_FALSE;
+						*runner = (ILubyte)val;
 						runner += 4;
 						--t;
 						++j;
@@ -304,27 +328,23 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				}
 			}
 		}
-		return; //done decoding a scanline in separated format
+		return IL_TRUE; //done decoding a scanline in separated format
 	}
 
 	//if we come here, we are dealing with old-style scanlines
 	shift = 0;
 	read = 0;
 	runner = scanline;
-	while (read < w) {
-		if (read != 0) {
-			r = igetc();
-			g = igetc();
-			b = igetc();
-			e = igetc();
-		}
-
+	while (IL_TRUE) {
 		//if all three mantissas are 1, then this is a rle
 		//count dword
-		if (r == 1 && g == 1 && b == 1) {
-			ILuint length = e;
+		if (Pixel[0] == 1 && Pixel[1] == 1 && Pixel[2] == 1) {
 			ILuint j;
-			for (j = length << shift; j > 0 && read < w; --j) {
+			if (read == 0 || shift > 16) {  // nothing to repeat
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
+			for (j = (ILuint)Pixel[3] << shift; j > 0 && read < w; --j) {
 				memcpy(runner, runner - 4, 4);
 				runner += 4;
 				++read;
@@ -336,15 +356,15 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			shift += 8;
 		}
 		else {
-			runner[0] = r;
-			runner[1] = g;
-			runner[2] = b;
-			runner[3] = e;
-
+			memcpy(runner, Pixel, 4);
 			shift = 0;
 			runner += 4;
 			++read;
 		}
+		if (read >= w)
+			return IL_TRUE;
+		if (iread(Pixel, 1, 4) != 4)
+			return IL_FALSE;
 	}
 }
 
-- 
2.43.0


From ac442fddfb1ff1da81c8937d2476791b0247dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 099/185] fix: ICO: palette indices, sizes and short reads were
 unchecked, PNG icons of other kinds read past their rows, allocations leaked
 on failure

---
 DevIL/src-IL/include/il_icon.h |   9 +-
 DevIL/src-IL/src/il_icon.cpp   | 752 +++++++++------------------------
 2 files changed, 209 insertions(+), 552 deletions(-)

diff --git a/DevIL/src-IL/include/il_icon.h b/DevIL/src-IL/include/il_icon.h
index aa2124c..89c6f38 100644
--- a/DevIL/src-IL/include/il_icon.h
+++ b/DevIL/src-IL/include/il_icon.h
@@ -53,18 +53,11 @@ typedef struct INFOHEAD
 	ILint		ColourImportant;
 } IL_PACKSTRUCT INFOHEAD;
 
-typedef struct ICOIMAGE
-{
-	INFOHEAD	Head;
-	ILubyte		*Pal;	// Palette
-	ILubyte		*Data;	// XOR mask
-	ILubyte		*AND;	// AND mask
-} ICOIMAGE;
 #ifdef _WIN32
 	#pragma pack(pop, ico_struct)
 #endif
 
 ILboolean iLoadIconInternal();
-ILboolean iLoadIconPNG(ICOIMAGE *Icon);
+ILboolean iLoadIconPNG(ILboolean First, ILimage **Last);
 
 #endif//ICON_H
diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index 23adb16..d1c4c40 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -60,615 +60,279 @@ ILboolean ilLoadIconL(const void *Lump, ILuint Size)
 }
 
 
-// Internal function used to load the icon.
-ILboolean iLoadIconInternal()
+// Makes room for the next image of the icon: the first one becomes the current image,
+//  the others follow it.  All of them are BGRA, stored from the bottom.
+static ILimage *iNewIconImage(ILboolean First, ILimage **Last, ILuint Width, ILuint Height)
 {
-	ICODIR		IconDir;
-	ICODIRENTRY	*DirEntries = NULL;
-	ICOIMAGE	*IconImages = NULL;
-	ILimage		*Image = NULL;
-	ILint		i;
-	ILuint		Size, PadSize, ANDPadSize, j, k, l, m, x, w, CurAndByte, AndBytes;
-	ILboolean	BaseCreated = IL_FALSE;
-	ILubyte		PNGTest[3];
+	ILimage *Image;
 
-	if (iCurImage == NULL) {
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return IL_FALSE;
+	if (First) {
+		if (!ilTexImage(Width, Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+			return NULL;
+		Image = iCurImage;
 	}
+	else {
+		Image = ilNewImageFull(Width, Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
+		if (Image == NULL)
+			return NULL;
+		(*Last)->Next = Image;
+	}
+	Image->Origin = IL_ORIGIN_LOWER_LEFT;
+	*Last = Image;
 
-	IconDir.Reserved = GetLittleShort();
-	IconDir.Type = GetLittleShort();
-	IconDir.Count = GetLittleShort();
+	return Image;
+}
 
-	if (ieof())
-		goto file_read_error;
 
-	DirEntries = (ICODIRENTRY*)ialloc(sizeof(ICODIRENTRY) * IconDir.Count);
-	IconImages = (ICOIMAGE*)ialloc(sizeof(ICOIMAGE) * IconDir.Count);
-	if (DirEntries == NULL || IconImages == NULL) {
-		ifree(DirEntries);
-		ifree(IconImages);
+// Reads an image stored as a device independent bitmap: header, palette, colours and mask.
+static ILboolean iLoadIconDib(ILboolean First, ILimage **Last, ILboolean *Skipped)
+{
+	INFOHEAD	Head;
+	ILubyte		HeadData[40], Palette[256 * 4], *Line, *Dest;
+	ILuint		Width, Height, NumColours, LineSize, MaskSize, x, y, Index;
+	ILimage		*Image;
+
+	if (iread(HeadData, 1, 40) != 40)
+		return IL_FALSE;
+	memcpy(&Head, HeadData, 40);
+	Int(&Head.Size);
+	Int(&Head.Width);
+	Int(&Head.Height);
+	Short(&Head.Planes);
+	Short(&Head.BitCount);
+	Int(&Head.Compression);
+	Int(&Head.ColourUsed);
+
+	*Skipped = IL_TRUE;
+	if (Head.BitCount != 1 && Head.BitCount != 4 && Head.BitCount != 8 && Head.BitCount != 24 && Head.BitCount != 32)
+		return IL_TRUE;
+	*Skipped = IL_FALSE;
+
+	// The height counts both the colours and the mask.
+	if (Head.Size < 40 || Head.Width <= 0 || Head.Height < 2 || Head.Compression != 0 ||
+		Head.Width > 0x1000000 || Head.ColourUsed < 0 || Head.ColourUsed > 256) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
+	if (Head.Size > 40 && iseek(Head.Size - 40, IL_SEEK_CUR) != 0)
+		return IL_FALSE;
 
-	// Make it easier for file_read_error.
-	for (i = 0; i < IconDir.Count; i++)
-		imemclear(&IconImages[i], sizeof(ICOIMAGE));
-
-	for (i = 0; i < IconDir.Count; ++i) {
-		DirEntries[i].Width = (ILubyte)igetc();
-		DirEntries[i].Height = (ILubyte)igetc();
-		DirEntries[i].NumColours = (ILubyte)igetc();
-		DirEntries[i].Reserved = (ILubyte)igetc();
-		DirEntries[i].Planes = GetLittleShort();
-		DirEntries[i].Bpp = GetLittleShort();
-		DirEntries[i].SizeOfData = GetLittleUInt();
-		DirEntries[i].Offset = GetLittleUInt();
-
-		if (ieof())
-			goto file_read_error;
-	}
+	Width = Head.Width;
+	Height = Head.Height / 2;
+	NumColours = Head.ColourUsed;
+	imemclear(Palette, sizeof(Palette));
+	if (NumColours == 0 && Head.BitCount <= 8)
+		NumColours = 1u << Head.BitCount;
+	if (NumColours != 0 && iread(Palette, 4, NumColours) != NumColours)
+		return IL_FALSE;
 
-	for (i = 0; i < IconDir.Count; i++) {
-		iseek(DirEntries[i].Offset, IL_SEEK_SET);
+	// Lines are padded to 4 bytes.
+	LineSize = (Width * Head.BitCount + 31) / 32 * 4;
+	MaskSize = (Width + 31) / 32 * 4;
+	Image = iNewIconImage(First, Last, Width, Height);
+	if (Image == NULL)
+		return IL_FALSE;
+	Line = (ILubyte*)ialloc(LineSize);
+	if (Line == NULL)
+		return IL_FALSE;
 
-		// 08-22-2008: Adding test for compressed PNG data
-		igetc(); // Skip the first character...seems to vary.
-		iread(PNGTest, 3, 1);
-		if (!strnicmp((char*)PNGTest, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
-		{
-#ifdef IL_NO_PNG
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);  // Cannot handle these without libpng.
-			goto file_read_error;
-#else
-			iseek(DirEntries[i].Offset, IL_SEEK_SET);
-			if (!iLoadIconPNG(&IconImages[i]))
-				goto file_read_error;
-#endif
+	for (y = 0; y < Height; y++) {
+		if (iread(Line, 1, LineSize) != LineSize) {
+			ifree(Line);
+			return IL_FALSE;
 		}
-		else
-		{
-			// Need to go back the 4 bytes that were just read.
-			iseek(DirEntries[i].Offset, IL_SEEK_SET);
-
-			IconImages[i].Head.Size = GetLittleInt();
-			IconImages[i].Head.Width = GetLittleInt();
-			IconImages[i].Head.Height = GetLittleInt();
-			IconImages[i].Head.Planes = GetLittleShort();
-			IconImages[i].Head.BitCount = GetLittleShort();
-			IconImages[i].Head.Compression = GetLittleInt();
-			IconImages[i].Head.SizeImage = GetLittleInt();
-			IconImages[i].Head.XPixPerMeter = GetLittleInt();
-			IconImages[i].Head.YPixPerMeter = GetLittleInt();
-			IconImages[i].Head.ColourUsed = GetLittleInt();
-			IconImages[i].Head.ColourImportant = GetLittleInt();
-
-			if (ieof())
-				goto file_read_error;
-
-			if (IconImages[i].Head.BitCount < 8) {
-				if (IconImages[i].Head.ColourUsed == 0) {
-					switch (IconImages[i].Head.BitCount)
-					{
-						case 1:
-							IconImages[i].Head.ColourUsed = 2;
-							break;
-						case 4:
-							IconImages[i].Head.ColourUsed = 16;
-							break;
-					}
-				}
-				IconImages[i].Pal = (ILubyte*)ialloc(IconImages[i].Head.ColourUsed * 4);
-				if (IconImages[i].Pal == NULL)
-					goto file_read_error;  // @TODO: Rename the label.
-				if (iread(IconImages[i].Pal, IconImages[i].Head.ColourUsed * 4, 1) != 1)
-					goto file_read_error;
-			}
-			else if (IconImages[i].Head.BitCount == 8) {
-				IconImages[i].Pal = (ILubyte*)ialloc(256 * 4);
-				if (IconImages[i].Pal == NULL)
-					goto file_read_error;
-				if (iread(IconImages[i].Pal, 1, 256 * 4) != 256*4)
-					goto file_read_error;
+		Dest = Image->Data + (size_t)y * Image->Bps;
+		for (x = 0; x < Width; x++, Dest += 4) {
+			switch (Head.BitCount)
+			{
+				case 1:
+					Index = (Line[x / 8] >> (7 - x % 8)) & 1;
+					memcpy(Dest, &Palette[Index * 4], 3);
+					break;
+				case 4:
+					Index = (Line[x / 2] >> (x % 2 ? 0 : 4)) & 15;
+					memcpy(Dest, &Palette[Index * 4], 3);
+					break;
+				case 8:
+					memcpy(Dest, &Palette[Line[x] * 4], 3);
+					break;
+				case 24:
+					memcpy(Dest, &Line[x * 3], 3);
+					break;
+				case 32:
+					// Windows XP style icons have a true alpha channel.
+					memcpy(Dest, &Line[x * 4], 4);
+					break;
 			}
-			else {
-				IconImages[i].Pal = NULL;
-			}
-
-			PadSize = (4 - ((IconImages[i].Head.Width*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
-			ANDPadSize = (4 - ((IconImages[i].Head.Width + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
-			Size = ((IconImages[i].Head.Width*IconImages[i].Head.BitCount + 7) / 8 + PadSize)
-								* (IconImages[i].Head.Height / 2);
-
-
-			IconImages[i].Data = (ILubyte*)ialloc(Size);
-			if (IconImages[i].Data == NULL)
-				goto file_read_error;
-			if (iread(IconImages[i].Data, 1, Size) != Size)
-				goto file_read_error;
-
-			Size = (((IconImages[i].Head.Width + 7) /8) + ANDPadSize) * (IconImages[i].Head.Height / 2);
-			IconImages[i].AND = (ILubyte*)ialloc(Size);
-			if (IconImages[i].AND == NULL)
-				goto file_read_error;
-			if (iread(IconImages[i].AND, 1, Size) != Size)
-				goto file_read_error;
 		}
 	}
 
-
-	for (i = 0; i < IconDir.Count; i++) {
-		if (IconImages[i].Head.BitCount != 1 && IconImages[i].Head.BitCount != 4 &&
-			IconImages[i].Head.BitCount != 8 && IconImages[i].Head.BitCount != 24 &&
-
-			IconImages[i].Head.BitCount != 32)
-			continue;
-
-		if (!BaseCreated) {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			else
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-			Image = iCurImage;
-			BaseCreated = IL_TRUE;
-		}
-		else {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, 1);
-			else
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, 1);
-			Image = Image->Next;
-			Image->Format = IL_BGRA;
-		}
-		Image->Type = IL_UNSIGNED_BYTE;
-
-		j = 0;  k = 0;  l = 128;  CurAndByte = 0; x = 0;
-
-		w = IconImages[i].Head.Width;
-		PadSize = (4 - ((w*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
-
-		ANDPadSize = (4 - ((w + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
-		AndBytes = (w + 7) / 8;
-
-		if (IconImages[i].Head.BitCount == 1) {
-			for (; j < Image->SizeOfData; k++) {
-				for (m = 128; m && x < w; m >>= 1) {
-					Image->Data[j] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4];
-					Image->Data[j+1] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4 + 1];
-					Image->Data[j+2] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4 + 2];
-					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-					j += 4;
-					l >>= 1;
-
-					++x;
-				}
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-						k += PadSize;
-						x = 0;
-					}
-
-				}
-			}
+	for (y = 0; y < Height; y++) {
+		if (iread(Line, 1, MaskSize) != MaskSize) {
+			ifree(Line);
+			return IL_FALSE;
 		}
-		else if (IconImages[i].Head.BitCount == 4) {
-			for (; j < Image->SizeOfData; j += 8, k++) {
-				Image->Data[j] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4];
-				Image->Data[j+1] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4 + 1];
-				Image->Data[j+2] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4 + 2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				l >>= 1;
-
-				++x;
+		if (Head.BitCount == 32)
+			continue;
+		Dest = Image->Data + (size_t)y * Image->Bps;
+		for (x = 0; x < Width; x++)
+			Dest[x * 4 + 3] = (Line[x / 8] >> (7 - x % 8)) & 1 ? 0 : 255;
+	}
+	ifree(Line);
 
-				if(x < w) {
-					Image->Data[j+4] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4];
-					Image->Data[j+5] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4 + 1];
-					Image->Data[j+6] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4 + 2];
-					Image->Data[j+7] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-					l >>= 1;
+	return IL_TRUE;
+}
 
-					++x;
 
-				}
+// Internal function used to load the icon.
+ILboolean iLoadIconInternal()
+{
+	ILushort	Reserved, Type, Count, i;
+	ILubyte		Head[6], *Entries, *Entry, Signature[4];
+	ILuint		Offset;
+	ILimage		*Last = NULL;
+	ILboolean	Created = IL_FALSE, Ok, Skipped;
 
-				else
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
-					j -= 4;
+	if (iread(Head, 1, 6) != 6)
+		return IL_FALSE;
+	Reserved = Head[0] | Head[1] << 8;
+	Type = Head[2] | Head[3] << 8;
+	Count = Head[4] | Head[5] << 8;
+	if (Reserved != 0 || (Type != 1 && Type != 2) || Count == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
+	Entries = (ILubyte*)ialloc(Count * 16);
+	if (Entries == NULL)
+		return IL_FALSE;
+	if (iread(Entries, 16, Count) != Count) {
+		ifree(Entries);
+		return IL_FALSE;
+	}
 
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
+	for (i = 0; i < Count; i++) {
+		Entry = Entries + i * 16;
+		Offset = Entry[12] | Entry[13] << 8 | Entry[14] << 16 | (ILuint)Entry[15] << 24;
 
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 8) {
-			for (; j < Image->SizeOfData; j += 4, k++) {
-				Image->Data[j] = IconImages[i].Pal[IconImages[i].Data[k] * 4];
-				Image->Data[j+1] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 1];
-				Image->Data[j+2] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 2];
-				if (IconImages[i].AND == NULL)  // PNG Palette
-				{
-					Image->Data[j+3] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 3];
-				}
-				else
-				{
-					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				}
-				l >>= 1;
-
-				++x;
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 24) {
-			for (; j < Image->SizeOfData; j += 4, k += 3) {
-				Image->Data[j] = IconImages[i].Data[k];
-				Image->Data[j+1] = IconImages[i].Data[k+1];
-				Image->Data[j+2] = IconImages[i].Data[k+2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				l >>= 1;
-
-				++x;
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
+		// 08-22-2008: Adding test for compressed PNG data
+		Ok = iseek(Offset, IL_SEEK_SET) == 0 && iread(Signature, 1, 4) == 4 && iseek(Offset, IL_SEEK_SET) == 0;
+		Skipped = IL_FALSE;
+		if (Ok) {
+			if (!strnicmp((char*)Signature + 1, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
+				Ok = iLoadIconPNG(!Created, &Last);
+			else
+				Ok = iLoadIconDib(!Created, &Last, &Skipped);
 		}
-
-		else if (IconImages[i].Head.BitCount == 32) {
-			for (; j < Image->SizeOfData; j += 4, k += 4) {
-				Image->Data[j] = IconImages[i].Data[k];
-				Image->Data[j+1] = IconImages[i].Data[k+1];
-				Image->Data[j+2] = IconImages[i].Data[k+2];
-
-				//If the icon has 4 channels, use 4th channel for alpha...
-				//(for Windows XP style icons with true alpha channel
-				Image->Data[j+3] = IconImages[i].Data[k+3];
-			}
+		if (!Ok) {
+			ifree(Entries);
+			return IL_FALSE;
 		}
+		if (!Skipped)
+			Created = IL_TRUE;
 	}
+	ifree(Entries);
 
-
-	for (i = 0; i < IconDir.Count; i++) {
-		ifree(IconImages[i].Pal);
-		ifree(IconImages[i].Data);
-		ifree(IconImages[i].AND);
+	if (!Created) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
 	}
-	ifree(IconImages);
-	ifree(DirEntries);
 
 	return ilFixImage();
-
-file_read_error:
-	if (IconImages) {
-		for (i = 0; i < IconDir.Count; i++) {
-			if (IconImages[i].Pal)
-				ifree(IconImages[i].Pal);
-			if (IconImages[i].Data)
-				ifree(IconImages[i].Data);
-			if (IconImages[i].AND)
-				ifree(IconImages[i].AND);
-		}
-		ifree(IconImages);
-	}
-	if (DirEntries)
-		ifree(DirEntries);
-	return IL_FALSE;
 }
 
 
-#ifndef IL_NO_PNG
-// 08-22-2008: Copying a lot of this over from il_png.c for the moment.
-// @TODO: Make .ico and .png use the same functions.
-png_structp ico_png_ptr = NULL;
-png_infop   ico_info_ptr = NULL;
-ILint		ico_color_type;
-
-#define GAMMA_CORRECTION 1.0  // Doesn't seem to be doing anything...
-
-ILint ico_readpng_init();
-ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent);
-void ico_readpng_cleanup();
-#endif
-
-ILboolean iLoadIconPNG(ICOIMAGE *Icon)
-{
-#ifndef IL_NO_PNG
-	ILint init;
-	init = ico_readpng_init();
-	if (init)
-		return IL_FALSE;
-	if (!ico_readpng_get_image(Icon, GAMMA_CORRECTION))
-		return IL_FALSE;
-
-	ico_readpng_cleanup();
-	Icon->Head.Size = 0;	// Easiest way to tell that this is a PNG.
-							// In the normal routine, it will not be 0.
-
-	return IL_TRUE;
-#else
-	Icon;
-	return IL_FALSE;
-#endif
-}
-
 #ifndef IL_NO_PNG
 static void ico_png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	if (iread(data, 1, (ILuint)length) != (ILuint)length)
+		png_error(png_ptr, "Read error");
 	return;
 }
 
-
 static void ico_png_error_func(png_structp png_ptr, png_const_charp message)
 {
-	message;
+	(void)message;
 	ilSetError(IL_LIB_PNG_ERROR);
-
-	/*
-	  changed 20040224
-	  From the libpng docs:
-	  "Errors handled through png_error() are fatal, meaning that png_error()
-	   should never return to its caller. Currently, this is handled via
-	   setjmp() and longjmp()"
-	*/
-	//return;
 	longjmp(png_jmpbuf(png_ptr), 1);
 }
 
 static void ico_png_warn_func(png_structp png_ptr, png_const_charp message)
 {
-	png_ptr; message;
+	(void)png_ptr; (void)message;
 	return;
 }
-
-
-ILint ico_readpng_init()
-{
-	ico_png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, ico_png_error_func, ico_png_warn_func);
-	if (!ico_png_ptr)
-		return 4;	/* out of memory */
-
-	ico_info_ptr = png_create_info_struct(ico_png_ptr);
-	if (!ico_info_ptr) {
-		png_destroy_read_struct(&ico_png_ptr, NULL, NULL);
-		return 4;	/* out of memory */
-	}
-
-
-	/* we could create a second info struct here (end_info), but it's only
-	 * useful if we want to keep pre- and post-IDAT chunk info separated
-	 * (mainly for PNG-aware image editors and converters) */
-
-
-	/* setjmp() must be called in every function that calls a PNG-reading
-	 * libpng function */
-
-	if (setjmp(png_jmpbuf(ico_png_ptr))) {
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-		return 2;
-	}
-
-
-	png_set_read_fn(ico_png_ptr, NULL, ico_png_read);
-	png_set_error_fn(ico_png_ptr, NULL, ico_png_error_func, ico_png_warn_func);
-
-//	png_set_sig_bytes(ico_png_ptr, 8);	/* we already read the 8 signature bytes */
-
-	png_read_info(ico_png_ptr, ico_info_ptr);  /* read all PNG info up to image data */
-
-	/* alternatively, could make separate calls to png_get_image_width(),
-	 * etc., but want bit_depth and ico_color_type for later [don't care about
-	 * compression_type and filter_type => NULLs] */
-
-	/* OK, that's all we need for now; return happy */
-
-	return 0;
-}
-
-
-ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
-{
-	png_bytepp	row_pointers = NULL;
-	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
-	ILdouble	screen_gamma = 1.0;
-	ILuint		i, channels;
-	ILenum		format;
-	png_colorp	palette;
-	ILint		num_palette, j, bit_depth;
-#if _WIN32 || DJGPP
-	ILdouble image_gamma;
 #endif
 
-	display_exponent;
 
-	/* setjmp() must be called in every function that calls a PNG-reading
-	 * libpng function */
-
-	if (setjmp(png_jmpbuf(ico_png_ptr))) {
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+// Reads an image stored as PNG.
+ILboolean iLoadIconPNG(ILboolean First, ILimage **Last)
+{
+#ifndef IL_NO_PNG
+	png_structp	PngPtr;
+	png_infop	InfoPtr;
+	png_uint_32	Width, Height, y;
+	ILint		BitDepth, ColourType;
+	ILimage		*Image;
+	png_bytep	*volatile Rows = NULL;
+
+	PngPtr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, ico_png_error_func, ico_png_warn_func);
+	if (PngPtr == NULL) {
+		ilSetError(IL_OUT_OF_MEMORY);
 		return IL_FALSE;
 	}
-
-	png_get_IHDR(ico_png_ptr, ico_info_ptr, (png_uint_32*)&width, (png_uint_32*)&height,
-	             &bit_depth, &ico_color_type, NULL, NULL, NULL);
-
-	// Expand low-bit-depth grayscale images to 8 bits
-	if (ico_color_type == PNG_COLOR_TYPE_GRAY && bit_depth < 8) {
-		png_set_expand_gray_1_2_4_to_8(ico_png_ptr);
-	}
-
-	// Expand RGB images with transparency to full alpha channels
-	//	so the data will be available as RGBA quartets.
- 	// But don't expand paletted images, since we want alpha palettes!
-	if (png_get_valid(ico_png_ptr, ico_info_ptr, PNG_INFO_tRNS) && !(png_get_valid(ico_png_ptr, ico_info_ptr, PNG_INFO_PLTE)))
-		png_set_tRNS_to_alpha(ico_png_ptr);
-
-	//refresh information (added 20040224)
-	png_get_IHDR(ico_png_ptr, ico_info_ptr, (png_uint_32*)&width, (png_uint_32*)&height,
-	             &bit_depth, &ico_color_type, NULL, NULL, NULL);
-
-	if (bit_depth < 8) {	// Expanded earlier for grayscale, now take care of palette and rgb
-		bit_depth = 8;
-		png_set_packing(ico_png_ptr);
-	}
-
-	// Perform gamma correction.
-	// @TODO:  Determine if we should call png_set_gamma if image_gamma is 1.0.
-#if _WIN32 || DJGPP
-	screen_gamma = 2.2;
-	if (png_get_gAMA(ico_png_ptr, ico_info_ptr, &image_gamma))
-		png_set_gamma(ico_png_ptr, screen_gamma, image_gamma);
-#else
-	screen_gamma = screen_gamma;
-#endif
-
-	//fix endianess
-#ifdef __LITTLE_ENDIAN__
-	if (bit_depth == 16)
-		png_set_swap(ico_png_ptr);
-#endif
-
-
-	png_read_update_info(ico_png_ptr, ico_info_ptr);
-	channels = (ILint)png_get_channels(ico_png_ptr, ico_info_ptr);
-	// added 20040224: update ico_color_type so that it has the correct value
-	// in iLoadPngInternal (globals rule...)
-	ico_color_type = png_get_color_type(ico_png_ptr, ico_info_ptr);
-
-	// Determine internal format
-	switch (ico_color_type)
-	{
-		case PNG_COLOR_TYPE_PALETTE:
-			Icon->Head.BitCount = 8;
-			format = IL_COLOUR_INDEX;
-			break;
-		case PNG_COLOR_TYPE_RGB:
-			Icon->Head.BitCount = 24;
-			format = IL_RGB;
-			break;
-		case PNG_COLOR_TYPE_RGB_ALPHA:
-			Icon->Head.BitCount = 32;
-			format = IL_RGBA;
-			break;
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-			return IL_FALSE;
-	}
-
-	if (ico_color_type & PNG_COLOR_MASK_COLOR)
-		png_set_bgr(ico_png_ptr);
-
-	Icon->Head.Width = width;
-	Icon->Head.Height = height;
-	Icon->Data = (ILubyte*)ialloc(width * height * Icon->Head.BitCount / 8);
-	if (Icon->Data == NULL)
-	{
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+	InfoPtr = png_create_info_struct(PngPtr);
+	if (InfoPtr == NULL) {
+		png_destroy_read_struct(&PngPtr, NULL, NULL);
+		ilSetError(IL_OUT_OF_MEMORY);
 		return IL_FALSE;
 	}
-
-	// Copy Palette
-	if (format == IL_COLOUR_INDEX)
-	{
-		int chans;
-		png_bytep trans = NULL;
-		int num_trans = -1;
-		if (!png_get_PLTE(ico_png_ptr, ico_info_ptr, &palette, &num_palette)) {
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-			return IL_FALSE;
-		}
-
-		chans = 4;
-
-		if (png_get_valid(ico_png_ptr, ico_info_ptr, PNG_INFO_tRNS)) {
-			png_get_tRNS(ico_png_ptr, ico_info_ptr, &trans, &num_trans, NULL);
-		}
-
-// @TODO: We may need to keep track of the size of the palette.
-		Icon->Pal = (ILubyte*)ialloc(num_palette * chans);
-
-		for (j = 0; j < num_palette; ++j) {
-			Icon->Pal[chans*j + 0] = palette[j].blue;
-			Icon->Pal[chans*j + 1] = palette[j].green;
-			Icon->Pal[chans*j + 2] = palette[j].red;
-			if (trans != NULL) {
-				if (j < num_trans)
-					Icon->Pal[chans*j + 3] = trans[j];
-				else
-					Icon->Pal[chans*j + 3] = 255;
-			}
-		}
-
-		Icon->AND = NULL;  // Transparency information is obtained from libpng.
+	if (setjmp(png_jmpbuf(PngPtr))) {
+		png_destroy_read_struct(&PngPtr, &InfoPtr, NULL);
+		ifree(Rows);
+		return IL_FALSE;
 	}
 
-	//allocate row pointers
-	if ((row_pointers = (png_bytepp)ialloc(height * sizeof(png_bytep))) == NULL) {
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+	png_set_read_fn(PngPtr, NULL, ico_png_read);
+	png_read_info(PngPtr, InfoPtr);
+	png_get_IHDR(PngPtr, InfoPtr, &Width, &Height, &BitDepth, &ColourType, NULL, NULL, NULL);
+
+	// Whatever the file holds becomes 8-bit BGRA.
+	png_set_expand(PngPtr);
+	if (BitDepth == 16)
+		png_set_scale_16(PngPtr);
+	if (!(ColourType & PNG_COLOR_MASK_COLOR))
+		png_set_gray_to_rgb(PngPtr);
+	png_set_bgr(PngPtr);
+	png_set_filler(PngPtr, 255, PNG_FILLER_AFTER);
+	png_set_interlace_handling(PngPtr);
+	png_read_update_info(PngPtr, InfoPtr);
+
+	Image = iNewIconImage(First, Last, Width, Height);
+	if (Image == NULL || png_get_rowbytes(PngPtr, InfoPtr) != Image->Bps ||
+		(Rows = (png_bytep*)ialloc(Height * sizeof(png_bytep))) == NULL) {
+		png_destroy_read_struct(&PngPtr, &InfoPtr, NULL);
 		return IL_FALSE;
 	}
+	for (y = 0; y < Height; y++)
+		Rows[Height - 1 - y] = Image->Data + (size_t)y * Image->Bps;
+	png_read_image(PngPtr, Rows);
+	png_read_end(PngPtr, NULL);
 
-
-	// Set the individual row_pointers to point at the correct offsets
-	// Needs to be flipped
-	for (i = 0; i < height; i++)
-		row_pointers[height - i - 1] = Icon->Data + i * width * Icon->Head.BitCount / 8;
-		//row_pointers[i] = Icon->Data + i * width * Icon->Head.BitCount / 8;
-
-
-	// Now we can go ahead and just read the whole image
-	png_read_image(ico_png_ptr, row_pointers);
-
-	/* and we're done!	(png_read_end() can be omitted if no processing of
-	 * post-IDAT text/time/etc. is desired) */
-	//png_read_end(ico_png_ptr, NULL);
-	ifree(row_pointers);
+	ifree(Rows);
+	png_destroy_read_struct(&PngPtr, &InfoPtr, NULL);
 
 	return IL_TRUE;
+#else
+	(void)First; (void)Last;
+	ilSetError(IL_FORMAT_NOT_SUPPORTED);  // Cannot handle these without libpng.
+	return IL_FALSE;
+#endif
 }
 
-
-void ico_readpng_cleanup()
-{
-	if (ico_png_ptr && ico_info_ptr) {
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-		ico_png_ptr = NULL;
-		ico_info_ptr = NULL;
-	}
-}
-#endif//IL_NO_PNG
-
 #endif//IL_NO_ICO
-- 
2.43.0


From c1bbcf4bb5ce68af74b6228bb53b5558f12d28b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 100/185] fix: PNG: a short read was ignored and decoded as
 garbage, sometimes without end, and a decoding error leaked the row table

---
 DevIL/src-IL/src/il_png.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5ceb645..5df2148 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -100,6 +100,8 @@ ILboolean iIsValidPng()
 	Read = iread(Signature, 1, 8);
 	iseek(-Read, IL_SEEK_CUR);
 
+	if (Read != 8)
+		return IL_FALSE;
 	return !png_sig_cmp(Signature, 0, 8);  // DW 5/2/2016: They changed the behavior of this function?
 }
 
@@ -173,8 +175,8 @@ ILboolean iLoadPngInternal()
 
 static void png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	if (iread(data, 1, (ILuint)length) != (ILuint)length)
+		png_error(png_ptr, "Read error");
 	return;
 }
 
@@ -249,7 +251,7 @@ ILint readpng_init()
 
 ILboolean readpng_get_image(ILdouble display_exponent)
 {
-	png_bytepp	row_pointers = NULL;
+	png_bytep	*volatile row_pointers = NULL;  // still set after longjmp()
 	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
 	ILdouble	screen_gamma = 1.0;
 	ILuint		i, channels;
@@ -265,6 +267,7 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 
 	if (setjmp(png_jmpbuf(png_ptr))) {
 		png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+		ifree(row_pointers);
 		return IL_FALSE;
 	}
 
@@ -354,6 +357,11 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 			png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 			return IL_FALSE;
 		}
+		if (num_palette <= 0) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		chans = 3;
 		iCurImage->Pal.PalType = IL_PAL_RGB24;
@@ -367,6 +375,12 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 		iCurImage->Pal.PalSize = num_palette * chans;
 
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+		if (iCurImage->Pal.Palette == NULL) {
+			iCurImage->Pal.PalSize = 0;
+			iCurImage->Pal.PalType = IL_PAL_NONE;
+			png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			iCurImage->Pal.Palette[chans*j + 0] = palette[j].red;
@@ -390,7 +404,7 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 
 	// Set the individual row_pointers to point at the correct offsets */
 	for (i = 0; i < height; i++)
-		row_pointers[i] = iCurImage->Data + i * iCurImage->Bps;
+		row_pointers[i] = iCurImage->Data + (size_t)i * iCurImage->Bps;
 
 
 	// Now we can go ahead and just read the whole image
-- 
2.43.0


From 81f31816cb71f21b2f11955d9060ba566789bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 101/185] fix: TIFF: tags a file lacks were taken from
 uninitialised memory, truncated data was accepted, offsets beyond 2 GB
 wrapped, strips smaller than their rows were read past

---
 DevIL/src-IL/src/il_tiff.cpp | 63 +++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index a1b5fd2..2480eb6 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -329,7 +329,20 @@ ILboolean iLoadTiffInternal()
 	*/
 	Image = NULL;
 	for (i = 0; i < DirCount; i++) {
-		TIFFSetDirectory(tif, (tdir_t)i);
+		// Tags that the file does not have leave these as they are.
+		w = h = 0;
+		samplesperpixel = bitspersample = 1;
+		extrasamples = 0;
+		sampleinfo = NULL;
+		orientation = ORIENTATION_TOPLEFT;
+		photometric = PHOTOMETRIC_MINISBLACK;
+		planarconfig = PLANARCONFIG_CONTIG;
+
+		if (!TIFFSetDirectory(tif, (tdir_t)i)) {
+			ilSetError(IL_LIB_TIFF_ERROR);
+			TIFFClose(tif);
+			return IL_FALSE;
+		}
 		TIFFGetField(tif, TIFFTAG_IMAGEWIDTH,  &w);
 		TIFFGetField(tif, TIFFTAG_IMAGELENGTH, &h);
 
@@ -346,6 +359,11 @@ ILboolean iLoadTiffInternal()
 		//have a palette (photometric == 3)...get this information
 		TIFFGetFieldDefaulted(tif, TIFFTAG_PHOTOMETRIC,  &photometric);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_PLANARCONFIG, &planarconfig);
+		if (w == 0 || h == 0) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			TIFFClose(tif);
+			return IL_FALSE;
+		}
 
 		//special-case code for frequent data cases that may be read more
 		//efficiently than with the TIFFReadRGBAImage() interface.
@@ -404,8 +422,17 @@ ILboolean iLoadTiffInternal()
 				}
 			}
 
+			rowsperstrip = h;
 			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			if (rowsperstrip > h)
+				rowsperstrip = h;
 			stripsize = TIFFStripSize(tif);
+			if (rowsperstrip == 0 || stripsize <= 0 || linesize < (Image->Width * samplesperpixel * (ILuint64)bitspersample + 7) / 8 ||
+				(ILuint64)linesize * rowsperstrip > (ILuint64)stripsize) {
+				ilSetError(IL_INVALID_FILE_HEADER);
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			strip = (ILubyte*)ialloc(stripsize);
 			if (strip == NULL) {
@@ -425,7 +452,7 @@ ILboolean iLoadTiffInternal()
 					else
 						linesread = rowsperstrip;
 
-					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
+					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) < (tsize_t)linesize * linesread) {
 						ilSetError(IL_LIB_TIFF_ERROR);
 						ifree(strip);
 						TIFFClose(tif);
@@ -463,7 +490,7 @@ ILboolean iLoadTiffInternal()
 					else
 						linesread = rowsperstrip;
 
-					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
+					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) < (tsize_t)linesize * linesread) {
 						ilSetError(IL_LIB_TIFF_ERROR);
 						ifree(strip);
 						TIFFClose(tif);
@@ -519,8 +546,17 @@ ILboolean iLoadTiffInternal()
 				return IL_FALSE;
 			}
 
+			rowsperstrip = h;
 			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			if (rowsperstrip > h)
+				rowsperstrip = h;
 			stripsize = TIFFStripSize(tif);
+			if (rowsperstrip == 0 || stripsize <= 0 || linesize < (Image->Width * samplesperpixel * (ILuint64)bitspersample + 7) / 8 ||
+				(ILuint64)linesize * rowsperstrip > (ILuint64)stripsize) {
+				ilSetError(IL_INVALID_FILE_HEADER);
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			strip = (ILubyte*)ialloc(stripsize);
 			if (strip == NULL) {
@@ -539,7 +575,7 @@ ILboolean iLoadTiffInternal()
 				else
 					linesread = rowsperstrip;
 
-				if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
+				if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) < (tsize_t)linesize * linesread) {
 					ilSetError(IL_LIB_TIFF_ERROR);
 					ifree(strip);
 					TIFFClose(tif);
@@ -592,7 +628,7 @@ ILboolean iLoadTiffInternal()
 			//this lets me view text.tif, but can give crashes with unsupported
 			//tiffs...
 			//2003-09-04: keep flag 1 for official version for now
-			if (!TIFFReadRGBAImage(tif, Image->Width, Image->Height, (uint32*)Image->Data, 0)) {
+			if (!TIFFReadRGBAImage(tif, Image->Width, Image->Height, (uint32*)Image->Data, 1)) {
 				TIFFClose(tif);
 				ilSetError(IL_LIB_TIFF_ERROR);
 				return IL_FALSE;
@@ -649,7 +685,7 @@ ILboolean iLoadTiffInternal()
 			
 		} //else not directly supported format
 
-		if (TIFFGetField(tif, TIFFTAG_ICCPROFILE, &ProfileLen, &Buffer)) {
+		if (TIFFGetField(tif, TIFFTAG_ICCPROFILE, &ProfileLen, &Buffer) && ProfileLen > 0) {
 			if (Image->Profile && Image->ProfileSize)
 				ifree(Image->Profile);
 			Image->Profile = (ILubyte*)ialloc(ProfileLen);
@@ -689,8 +725,10 @@ ILboolean iLoadTiffInternal()
 
                 //offset in pixels of "cropped" image from top left corner of 
                 //full image (rounded to nearest integer)
-                Image->OffX = (uint32) ((x_position * x_resolution) + 0.49);
-                Image->OffY = (uint32) ((y_position * y_resolution) + 0.49);
+                x_position = x_position * x_resolution + 0.49f;
+                y_position = y_position * y_resolution + 0.49f;
+                Image->OffX = x_position > 0 && x_position < 4294967040.0f ? (uint32)x_position : 0;
+                Image->OffY = y_position > 0 && y_position < 4294967040.0f ? (uint32)y_position : 0;
                 
 
 		/*
@@ -747,11 +785,12 @@ static toff_t
 _tiffFileSeekProc(thandle_t fd, toff_t tOff, int whence)
 {
 	fd;
-	/* we use this as a special code, so avoid accepting it */
-	if (tOff == 0xFFFFFFFF)
-		return 0xFFFFFFFF;
+	/* positions are limited to 31 bits */
+	if (whence == SEEK_SET && tOff > 0x7FFFFFFF)
+		return (toff_t)-1;
 
-	iseek((ILint)tOff, whence);
+	if (iseek((ILint)tOff, whence) != 0)
+		return (toff_t)-1;
 	return itell();
 	//return tOff;
 }
-- 
2.43.0


From 05bfa5237b596ae75673cdf931a7e960ad673451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 102/185] fix: type detection judged headers the file is too
 short for, from uninitialised memory, and rewound to the wrong place

---
 DevIL/src-IL/src/il_blp.cpp    | 11 +++++++----
 DevIL/src-IL/src/il_bmp.cpp    |  8 +++++---
 DevIL/src-IL/src/il_dds.cpp    | 12 +++++++-----
 DevIL/src-IL/src/il_dicom.cpp  |  2 +-
 DevIL/src-IL/src/il_fits.cpp   |  4 ++--
 DevIL/src-IL/src/il_icns.cpp   |  6 ++++--
 DevIL/src-IL/src/il_iwi.cpp    |  7 ++++++-
 DevIL/src-IL/src/il_jpeg.cpp   | 14 ++++++++------
 DevIL/src-IL/src/il_lif.cpp    | 10 +++++++---
 DevIL/src-IL/src/il_mdl.cpp    |  4 ++--
 DevIL/src-IL/src/il_mp3.cpp    |  2 +-
 DevIL/src-IL/src/il_pic.cpp    | 11 ++++++++---
 DevIL/src-IL/src/il_pix.cpp    | 11 ++++++++---
 DevIL/src-IL/src/il_psd.cpp    | 13 ++++++++++---
 DevIL/src-IL/src/il_psp.cpp    | 12 +++++++++---
 DevIL/src-IL/src/il_scitex.cpp |  7 +++++--
 DevIL/src-IL/src/il_sgi.cpp    | 11 ++++++++---
 DevIL/src-IL/src/il_sun.cpp    | 11 ++++++++---
 DevIL/src-IL/src/il_targa.cpp  | 11 ++++++++---
 DevIL/src-IL/src/il_tiff.cpp   | 19 +++++++------------
 DevIL/src-IL/src/il_tpl.cpp    | 11 ++++++++---
 DevIL/src-IL/src/il_vtf.cpp    | 14 +++++++++++---
 DevIL/src-IL/src/il_xpm.cpp    |  4 +++-
 23 files changed, 143 insertions(+), 72 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index 85fbc4d..ad3745f 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -119,7 +119,7 @@ ILboolean ilIsValidBlpL(const void *Lump, ILuint Size)
 // Internal function used to get the BLP header from the current file.
 ILboolean iGetBlp2Head(BLP2HEAD *Header)
 {
-	ILuint i;
+	ILuint	i, Start = itell();
 
 	iread(Header->Sig, 1, 4);
 	Header->Type = GetLittleUInt();
@@ -134,7 +134,7 @@ ILboolean iGetBlp2Head(BLP2HEAD *Header)
 	for (i = 0; i < 16; i++)
 		Header->MipLengths[i] = GetLittleUInt();
 
-	return IL_TRUE;
+	return itell() - Start == 148;
 }
 
 
@@ -142,10 +142,13 @@ ILboolean iGetBlp2Head(BLP2HEAD *Header)
 ILboolean iIsValidBlp2(void)
 {
 	BLP2HEAD Header;
+	ILuint	Pos = itell();
 
-	if (!iGetBlp2Head(&Header))
+	if (!iGetBlp2Head(&Header)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-148, IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 	
 	return iCheckBlp2(&Header);
 }
diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index c518b9f..a890b77 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -68,6 +68,8 @@ ILboolean ilIsValidBmpL(const void * Lump, ILuint Size)
 // Internal function used to get the .bmp header from the current file.
 ILboolean iGetBmpHead(BMPHEAD * const Header)
 {
+	ILuint	Start = itell();
+
 	Header->bfType = GetLittleUShort();
 	Header->bfSize = GetLittleInt();
 	Header->bfReserved = GetLittleUInt();
@@ -83,7 +85,7 @@ ILboolean iGetBmpHead(BMPHEAD * const Header)
 	Header->biYPelsPerMeter = GetLittleInt();
 	Header->biClrUsed = GetLittleInt();
 	Header->biClrImportant = GetLittleInt();
-	return IL_TRUE;
+	return itell() - Start == 54;
 }
 
 
@@ -122,10 +124,10 @@ ILboolean iIsValidBmp()
 	ILuint		FirstPos = itell();
 
 	iSaveErrors(&Errors);
-	iGetBmpHead(&Head);
+	IsValid = iGetBmpHead(&Head);
 	iseek(FirstPos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
-	IsValid = iCheckBmp(&Head);
+	IsValid = IsValid && iCheckBmp(&Head);
 	if (!IsValid) {
 		iRestoreErrors(&Errors);  // A shorter OS/2 header can still follow.
 		IsValid = iGetOS2Head(&Os2Head) && iCheckOS2(&Os2Head);
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 5441723..e8d4d63 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -100,9 +100,11 @@ ILboolean ilIsValidDdsL(const void *Lump, ILuint Size)
 // Internal function used to get the .dds header from the current file.
 ILboolean iGetDdsHead(DDSHEAD *Header)
 {
-	ILint i;
+	ILint	i;
+	ILuint	Start = itell();
 
-	iread(&Header->Signature, 1, 4);
+	if (iread(&Header->Signature, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Size1 = GetLittleUInt();
 	Header->Flags1 = GetLittleUInt();
 	Header->Height = GetLittleUInt();
@@ -132,7 +134,7 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 	if (Header->Depth == 0)
 		Header->Depth = 1;
 
-	return IL_TRUE;
+	return itell() - Start == 128;
 }
 
 
@@ -157,10 +159,10 @@ ILboolean iIsValidDds()
 	ILuint		Pos = itell();
 
 	memset(&Head, 0, sizeof(DDSHEAD));
-	iGetDdsHead(&Head);
+	IsValid = iGetDdsHead(&Head);
 	iseek(Pos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
-	IsValid = iCheckDds(&Head);
+	IsValid = IsValid && iCheckDds(&Head);
 
 	return IsValid;
 }
diff --git a/DevIL/src-IL/src/il_dicom.cpp b/DevIL/src-IL/src/il_dicom.cpp
index c8074a6..75e063c 100644
--- a/DevIL/src-IL/src/il_dicom.cpp
+++ b/DevIL/src-IL/src/il_dicom.cpp
@@ -105,7 +105,7 @@ ILboolean iIsValidDicom(void)
 	if (!iGetDicomHead(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckDicom(&Header);
 }
diff --git a/DevIL/src-IL/src/il_fits.cpp b/DevIL/src-IL/src/il_fits.cpp
index cf375ce..e6f145c 100644
--- a/DevIL/src-IL/src/il_fits.cpp
+++ b/DevIL/src-IL/src/il_fits.cpp
@@ -102,7 +102,7 @@ ILboolean iGetFitsHead(FITSHEAD *Header)
 	ILenum	CardKey;
 
 //@TODO: Use something other than memset?
-	memset(Header, 0, sizeof(Header));  // Clear the header to all 0s first.
+	memset(Header, 0, sizeof(*Header));  // Clear the header to all 0s first.
 
 	do {
 		CardKey = GetCardImage(Header);
@@ -182,7 +182,7 @@ ILboolean iIsValidFits(void)
 	if (!iGetFitsHead(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckFits(&Header);
 }
diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 89cf47f..1aab453 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -86,9 +86,11 @@ ILboolean iIsValidIcns()
 {
 	ICNSHEAD	Header;
 
-	iread(Header.Head, 1, 4);
-	iseek(-4, IL_SEEK_CUR);  // Go ahead and restore to previous state
+	ILuint	Read = iread(Header.Head, 1, 4);
+	iseek(-(ILint)Read, IL_SEEK_CUR);  // Go ahead and restore to previous state
 
+	if (Read != 4)
+		return IL_FALSE;
 	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
 		return IL_FALSE;
 
diff --git a/DevIL/src-IL/src/il_iwi.cpp b/DevIL/src-IL/src/il_iwi.cpp
index 5309b11..5c38621 100644
--- a/DevIL/src-IL/src/il_iwi.cpp
+++ b/DevIL/src-IL/src/il_iwi.cpp
@@ -90,12 +90,17 @@ ILboolean ilIsValidIwiL(const void *Lump, ILuint Size)
 // Internal function used to get the IWI header from the current file.
 ILboolean iGetIwiHead(IWIHEAD *Header)
 {
+	ILuint	Start = itell();
+
 	Header->Signature = GetLittleUInt();
 	Header->Format = igetc();
 	Header->Flags = igetc();  //@TODO: Find out what the flags mean.
 	Header->Width = GetLittleUShort();
 	Header->Height = GetLittleUShort();
 
+	if (itell() - Start != 10)
+		return IL_FALSE;
+
 	// @TODO: Find out what is in the rest of the header.
 	iseek(18, IL_SEEK_CUR);
 
@@ -112,7 +117,7 @@ ILboolean iIsValidIwi(void)
 	if (!iGetIwiHead(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckIwi(&Header);
 }
diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index 14a3fb4..8cf2d5e 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -69,11 +69,9 @@ static ILboolean jpgErrorOccured = IL_FALSE;
 ILboolean ilLoadFromJpegStruct(void *_JpegInfo);
 
 // Internal function used to get the .jpg header from the current file.
-void iGetJpgHead(ILubyte *Header)
+ILboolean iGetJpgHead(ILubyte *Header)
 {
-	Header[0] = igetc();
-	Header[1] = igetc();
-	return;
+	return iread(Header, 1, 2) == 2;
 }
 
 
@@ -90,9 +88,13 @@ ILboolean iCheckJpg(ILubyte Header[2])
 ILboolean iIsValidJpeg()
 {
 	ILubyte Head[2];
+	ILuint	Pos = itell();
 
-	iGetJpgHead(Head);
-	iseek(-2, IL_SEEK_CUR);  // Go ahead and restore to previous state
+	if (!iGetJpgHead(Head)) {
+		iseek(Pos, IL_SEEK_SET);
+		return IL_FALSE;
+	}
+	iseek(Pos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	return iCheckJpg(Head);
 }
diff --git a/DevIL/src-IL/src/il_lif.cpp b/DevIL/src-IL/src/il_lif.cpp
index 0118f69..46e39e3 100644
--- a/DevIL/src-IL/src/il_lif.cpp
+++ b/DevIL/src-IL/src/il_lif.cpp
@@ -66,6 +66,7 @@ ILboolean ilIsValidLifL(const void *Lump, ILuint Size)
 // Internal function used to get the Lif header from the current file.
 ILboolean iGetLifHead(LIF_HEAD *Header)
 {
+	ILuint	Start = itell();
 
 	iread(Header->Id, 1, 8);
 
@@ -88,7 +89,7 @@ ILboolean iGetLifHead(LIF_HEAD *Header)
 	Header->TeamEffect1 = GetLittleUInt();
 
 
-	return IL_TRUE;
+	return itell() - Start == 44;
 }
 
 
@@ -96,10 +97,13 @@ ILboolean iGetLifHead(LIF_HEAD *Header)
 ILboolean iIsValidLif()
 {
 	LIF_HEAD	Head;
+	ILuint	Pos = itell();
 
-	if (!iGetLifHead(&Head))
+	if (!iGetLifHead(&Head)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(LIF_HEAD), IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckLif(&Head);
 }
diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 6e5d81a..530825b 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -69,11 +69,11 @@ ILboolean ilIsValidMdlL(const void *Lump, ILuint Size)
 // Internal function to get the header and check it.
 ILboolean iIsValidMdl(void)
 {
-	ILuint Id, Version;
+	ILuint Id, Version, Pos = itell();
 
 	Id = GetLittleUInt();
 	Version = GetLittleUInt();
-	iseek(-8, IL_SEEK_CUR);  // Restore to previous position.
+	iseek(Pos, IL_SEEK_SET);  // Restore to previous position.
 
 	// 0x54534449 == "IDST"
 	if (Id != 0x54534449 || Version != 10)
diff --git a/DevIL/src-IL/src/il_mp3.cpp b/DevIL/src-IL/src/il_mp3.cpp
index c7f0458..e7dab69 100755
--- a/DevIL/src-IL/src/il_mp3.cpp
+++ b/DevIL/src-IL/src/il_mp3.cpp
@@ -116,7 +116,7 @@ ILboolean iIsValidMp3(void)
 	if (!iGetMp3Head(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckMp3(&Header);
 }
diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index d4d459e..52e9621 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -68,6 +68,8 @@ ILboolean ilIsValidPicL(const void *Lump, ILuint Size)
 // Internal function used to get the .pic header from the current file.
 ILboolean iGetPicHead(PIC_HEAD *Header)
 {
+	ILuint	Start = itell();
+
 	Header->Magic = GetBigInt();
 	Header->Version = GetBigFloat();
 	iread(Header->Comment, 1, 80);
@@ -78,7 +80,7 @@ ILboolean iGetPicHead(PIC_HEAD *Header)
 	Header->Fields = GetBigShort();
 	Header->Padding = GetBigShort();
 
-	return IL_TRUE;
+	return itell() - Start == 104;
 }
 
 
@@ -86,10 +88,13 @@ ILboolean iGetPicHead(PIC_HEAD *Header)
 ILboolean iIsValidPic()
 {
 	PIC_HEAD	Head;
+	ILuint	Pos = itell();
 
-	if (!iGetPicHead(&Head))
+	if (!iGetPicHead(&Head)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(PIC_HEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	}
+	iseek(Pos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	return iCheckPic(&Head);
 }
diff --git a/DevIL/src-IL/src/il_pix.cpp b/DevIL/src-IL/src/il_pix.cpp
index e43e60f..31860fb 100644
--- a/DevIL/src-IL/src/il_pix.cpp
+++ b/DevIL/src-IL/src/il_pix.cpp
@@ -38,13 +38,15 @@ ILboolean iLoadPixInternal(void);
 // Internal function used to get the Pix header from the current file.
 ILboolean iGetPixHead(PIXHEAD *Header)
 {
+	ILuint	Start = itell();
+
 	Header->Width = GetBigUShort();
 	Header->Height = GetBigUShort();
 	Header->OffX = GetBigUShort();
 	Header->OffY = GetBigUShort();
 	Header->Bpp = GetBigUShort();
 
-	return IL_TRUE;
+	return itell() - Start == 10;
 }
 
 
@@ -52,10 +54,13 @@ ILboolean iGetPixHead(PIXHEAD *Header)
 ILboolean iIsValidPix()
 {
 	PIXHEAD	Head;
+	ILuint	Pos = itell();
 
-	if (!iGetPixHead(&Head))
+	if (!iGetPixHead(&Head)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(PIXHEAD), IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckPix(&Head);
 }
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index 2cec5e1..0c20325 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -71,6 +71,8 @@ ILboolean ilIsValidPsdL(const void *Lump, ILuint Size)
 // Internal function used to get the Psd header from the current file.
 ILboolean iGetPsdHead(PSDHEAD *Header)
 {
+	ILuint	Start = itell();
+
 	imemclear(Header, sizeof(PSDHEAD));
 	iread(Header->Signature, 1, 4);
 	Header->Version = GetBigUShort();
@@ -81,7 +83,7 @@ ILboolean iGetPsdHead(PSDHEAD *Header)
 	Header->Depth = GetBigUShort();
 	Header->Mode = GetBigUShort();
 
-	return IL_TRUE;
+	return itell() - Start == 26;
 }
 
 
@@ -90,8 +92,13 @@ ILboolean iIsValidPsd()
 {
 	PSDHEAD	Head;
 
-	iGetPsdHead(&Head);
-	iseek(-(ILint)sizeof(PSDHEAD), IL_SEEK_CUR);
+	ILuint	Pos = itell();
+
+	if (!iGetPsdHead(&Head)) {
+		iseek(Pos, IL_SEEK_SET);
+		return IL_FALSE;
+	}
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckPsd(&Head);
 }
diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index 0f4e0a3..65588cc 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -86,21 +86,27 @@ ILboolean ilIsValidPspL(const void *Lump, ILuint Size)
 // Internal function used to get the Psp header from the current file.
 ILboolean iGetPspHead()
 {
+	ILuint	Start = itell();
+
 	if (iread(Header.FileSig, 1, 32) != 32)
 		return IL_FALSE;
 	Header.MajorVersion = GetLittleUShort();
 	Header.MinorVersion = GetLittleUShort();
 
-	return IL_TRUE;
+	return itell() - Start == 36;
 }
 
 
 // Internal function to get the header and check it.
 ILboolean iIsValidPsp()
 {
-	if (!iGetPspHead())
+	ILuint	Pos = itell();
+
+	if (!iGetPspHead()) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(PSPHEAD), IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckPsp();
 }
diff --git a/DevIL/src-IL/src/il_scitex.cpp b/DevIL/src-IL/src/il_scitex.cpp
index c2a863d..baf5fc9 100644
--- a/DevIL/src-IL/src/il_scitex.cpp
+++ b/DevIL/src-IL/src/il_scitex.cpp
@@ -138,10 +138,13 @@ ILboolean ilIsValidScitexL(const void *Lump, ILuint Size)
 ILboolean iIsValidScitex(void)
 {
 	SCITEXHEAD Header;
+	ILuint	Pos = itell();
 
-	if (!iGetScitexHead(&Header))
+	if (!iGetScitexHead(&Header)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-2048, IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckScitex(&Header);
 }
diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index bceff66..d2a50aa 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -72,6 +72,8 @@ ILboolean ilIsValidSgiL(const void *Lump, ILuint Size)
 // Internal function used to get the .sgi header from the current file.
 ILboolean iGetSgiHead(iSgiHeader *Header)
 {
+	ILuint	Start = itell();
+
 	Header->MagicNum = GetBigUShort();
 	Header->Storage = (ILbyte)igetc();
 	Header->Bpc = (ILbyte)igetc();
@@ -86,7 +88,7 @@ ILboolean iGetSgiHead(iSgiHeader *Header)
 	Header->ColMap = GetBigInt();
 	iread(Header->Dummy, 1, 404);
 
-	return IL_TRUE;
+	return itell() - Start == 512;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -95,10 +97,13 @@ ILboolean iGetSgiHead(iSgiHeader *Header)
 ILboolean iIsValidSgi()
 {
 	iSgiHeader	Head;
+	ILuint	Pos = itell();
 
-	if (!iGetSgiHead(&Head))
+	if (!iGetSgiHead(&Head)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(iSgiHeader), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	}
+	iseek(Pos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	return iCheckSgi(&Head);
 }
diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 65ef41c..1833e56 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -101,6 +101,8 @@ ILboolean ilIsValidSunL(const void *Lump, ILuint Size)
 // Internal function used to get the Sun header from the current file.
 ILboolean iGetSunHead(SUNHEAD *Header)
 {
+	ILuint	Start = itell();
+
 	Header->MagicNumber = GetBigUInt();
 	Header->Width = GetBigUInt();
 	Header->Height = GetBigUInt();
@@ -110,7 +112,7 @@ ILboolean iGetSunHead(SUNHEAD *Header)
 	Header->ColorMapType = GetBigUInt();
 	Header->ColorMapLength = GetBigUInt();
 
-	return IL_TRUE;
+	return itell() - Start == 32;
 }
 
 
@@ -144,10 +146,13 @@ ILboolean iCheckSun(SUNHEAD *Header)
 ILboolean iIsValidSun()
 {
 	SUNHEAD Head;
+	ILuint	Pos = itell();
 
-	if (!iGetSunHead(&Head))
+	if (!iGetSunHead(&Head)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(SUNHEAD), IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 	
 	return iCheckSun(&Head);
 }
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 3db88e8..51d45b7 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -76,6 +76,8 @@ ILboolean ilIsValidTgaL(const void *Lump, ILuint Size)
 // Internal function used to get the Targa header from the current file.
 ILboolean iGetTgaHead(TARGAHEAD *Header)
 {
+	ILuint	Start = itell();
+
 	Header->IDLen = (ILubyte)igetc();
 	Header->ColMapPresent = (ILubyte)igetc();
 	Header->ImageType = (ILubyte)igetc();
@@ -90,7 +92,7 @@ ILboolean iGetTgaHead(TARGAHEAD *Header)
 	Header->Bpp = (ILubyte)igetc();
 	Header->ImageDesc = (ILubyte)igetc();
 	
-	return IL_TRUE;
+	return itell() - Start == 18;
 }
 
 
@@ -98,10 +100,13 @@ ILboolean iGetTgaHead(TARGAHEAD *Header)
 ILboolean iIsValidTarga()
 {
 	TARGAHEAD	Head;
+	ILuint	Pos = itell();
 	
-	if (!iGetTgaHead(&Head))
+	if (!iGetTgaHead(&Head)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(TARGAHEAD), IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 	
 	return iCheckTarga(&Head);
 }
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 2480eb6..1d34a67 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -82,22 +82,17 @@ ILboolean ilIsValidTiff(ILconst_string FileName)
 
 ILboolean ilisValidTiffFunc()
 {
-	ILushort Header1, Header2;
+	ILubyte Header[4];
 
-	Header1 = GetLittleUShort();
-
-	if (Header1 != MAGIC_HEADER1 && Header1 != MAGIC_HEADER2)
+	if (iread(Header, 1, 4) != 4)
 		return IL_FALSE;
 
-	if (Header1 == MAGIC_HEADER1)
-		Header2 = GetLittleUShort();
-	else
-		Header2 = GetBigUShort();
+	if (Header[0] == 'I' && Header[1] == 'I')
+		return Header[2] == 42 && Header[3] == 0;
+	if (Header[0] == 'M' && Header[1] == 'M')
+		return Header[2] == 0 && Header[3] == 42;
 
-	if (Header2 != 42)
-		return IL_FALSE;
-
-	return IL_TRUE;
+	return IL_FALSE;
 }
 
 /*----------------------------------------------------------------------------*/
diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index bc254fa..708b0b2 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -105,10 +105,12 @@ ILboolean ilIsValidTplL(const void *Lump, ILuint Size)
 // Internal function used to get the TPL header from the current file.
 ILboolean iGetTplHead(TPLHEAD *Header)
 {
+	ILuint	Start = itell();
+
 	Header->Magic = GetBigUInt();
 	Header->nTextures = GetBigUInt();
 	Header->HeaderSize = GetBigUInt();
-	return IL_TRUE;
+	return itell() - Start == 12;
 }
 
 
@@ -116,10 +118,13 @@ ILboolean iGetTplHead(TPLHEAD *Header)
 ILboolean iIsValidTpl(void)
 {
 	TPLHEAD Header;
+	ILuint	Pos = itell();
 
-	if (!iGetTplHead(&Header))
+	if (!iGetTplHead(&Header)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-12, IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 	
 	return iCheckTpl(&Header);
 }
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index af7c0ba..ffc7bc2 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -73,7 +73,10 @@ ILboolean ilIsValidVtfL(const void *Lump, ILuint Size)
 // Internal function used to get the VTF header from the current file.
 ILboolean iGetVtfHead(VTFHEAD *Header)
 {
-	iread(Header->Signature, 1, 4);
+	ILuint	Start = itell();
+
+	if (iread(Header->Signature, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Version[0] = GetLittleUInt();
 	Header->Version[1] = GetLittleUInt();
 	Header->HeaderSize = GetLittleUInt();
@@ -93,6 +96,8 @@ ILboolean iGetVtfHead(VTFHEAD *Header)
 	Header->LowResImageFormat = GetLittleInt();
 	Header->LowResImageWidth = (ILubyte)igetc();
 	Header->LowResImageHeight = (ILubyte)igetc();
+	if (itell() - Start != 63)
+		return IL_FALSE;
 //@TODO: This is a hack for the moment.
 	if (Header->HeaderSize == 64) {
 		Header->Depth = igetc();
@@ -112,10 +117,13 @@ ILboolean iGetVtfHead(VTFHEAD *Header)
 ILboolean iIsValidVtf(void)
 {
 	VTFHEAD Header;
+	ILuint	Pos = itell();
 
-	if (!iGetVtfHead(&Header))
+	if (!iGetVtfHead(&Header)) {
+		iseek(Pos, IL_SEEK_SET);
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(VTFHEAD), IL_SEEK_CUR);
+	}
+	iseek(Pos, IL_SEEK_SET);
 	
 	return iCheckVtf(&Header);
 }
diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 4b4a3e8..2a74b63 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -78,8 +78,10 @@ ILboolean iIsValidXpm(void)
 	ILubyte	Buffer[10];
 	ILuint	Pos = itell();
 
-	XpmGetsInternal(Buffer, 10);
+	ILint	Read = XpmGetsInternal(Buffer, 10);
 	iseek(Pos, IL_SEEK_SET);  // Restore position
+	if (Read <= 0)
+		return IL_FALSE;
 
 	if (strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */")))
 		return IL_FALSE;
-- 
2.43.0


From 1d5f25299e2326f62a39b8d79b0d03e3515e90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 103/185] fix: format and type modes converted all frames of a
 multi-image file to the first frame's format and type

---
 DevIL/src-IL/include/il_internal.h |  2 ++
 DevIL/src-IL/src/il_convert.cpp    | 31 +++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index aa32207..ff46880 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -212,6 +212,8 @@ ILAPI ILubyte*	ILAPIENTRY ilSquishCompressDXT(ILubyte *Data, ILuint Width, ILuin
 ILboolean	ilAddAlpha(void);
 ILboolean	ilAddAlphaKey(ILimage *Image);
 ILboolean	iFastConvert(ILenum DestFormat);
+ILboolean	iExpandPal(ILpal *Pal, ILubyte Colours[256][4]);
+ILimage*	iGetSaveImage(ILimage *Image, ILenum Format, ILenum Type, ILenum Origin);
 ILboolean	ilFixCur(void);
 ILboolean	ilFixImage(void);
 ILboolean	ilRemoveAlpha(void);
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 330491a..fad60f6 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -16,7 +16,7 @@
 
 
 // Expands a palette to 256 RGBA colours, entries it does not have are black.
-static ILboolean iExpandPal(ILpal *Pal, ILubyte Colours[256][4])
+ILboolean iExpandPal(ILpal *Pal, ILubyte Colours[256][4])
 {
 	ILuint i, Size, Num, Red;
 
@@ -331,6 +331,24 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 }
 
 
+// Returns a copy of the picture of Image (without its sub-images) in the given format, type and
+//	origin for the functions that save it.  It has to be closed by ilCloseImage().
+ILimage* iGetSaveImage(ILimage *Image, ILenum Format, ILenum Type, ILenum Origin)
+{
+	ILimage *SaveImage = iConvertImage(Image, Format, Type);
+
+	if (SaveImage == NULL)
+		return NULL;
+
+	if (SaveImage->Origin != Origin) {
+		iFlipBuffer(SaveImage->Data, SaveImage->Depth, SaveImage->Bps, SaveImage->Height);
+		SaveImage->Origin = Origin;
+	}
+
+	return SaveImage;
+}
+
+
 // Swaps the colour order of the current image (rgb(a)->bgr(a) or vice-versa).
 //	Must be either an 8, 24 or 32-bit (coloured) image (or palette).
 ILboolean ilSwapColours()
@@ -769,7 +787,9 @@ ILboolean ilRemoveAlpha()
 
 ILboolean ilFixCur()
 {
-	ILenum Format, Type;
+	ILenum		Format, Type;
+	ILimage		*Next;
+	ILboolean	bRet;
 
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
 		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
@@ -793,7 +813,12 @@ ILboolean ilFixCur()
 		Format = IL_BGR;
 
 	if (Format != iCurImage->Format || Type != iCurImage->Type) {
-		if (!ilConvertImage(Format, Type)) {
+		// ilConvertImage() would convert the images that follow as well, which may be of another kind.
+		Next = iCurImage->Next;
+		iCurImage->Next = NULL;
+		bRet = ilConvertImage(Format, Type);
+		iCurImage->Next = Next;
+		if (!bRet) {
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From 6404891aa9aaa2457fe5cc48b3697f805ffc02a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 104/185] fix: RAW: images in the lower left origin were saved
 upside down, BGR ones with swapped colours, two channel files loaded as
 malformed images

---
 DevIL/src-IL/src/il_raw.cpp | 101 ++++++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 32 deletions(-)

diff --git a/DevIL/src-IL/src/il_raw.cpp b/DevIL/src-IL/src/il_raw.cpp
index 881fdd3..0591670 100644
--- a/DevIL/src-IL/src/il_raw.cpp
+++ b/DevIL/src-IL/src/il_raw.cpp
@@ -76,40 +76,50 @@ ILboolean iLoadRawInternal()
 	}
 
 
-	iCurImage->Width = GetLittleUInt();
-
-	iCurImage->Height = GetLittleUInt();
-
-	iCurImage->Depth = GetLittleUInt();
-
-	iCurImage->Bpp = (ILubyte)igetc();
+	ILuint	Width, Height, Depth;
+	ILint	Bpp, Bpc;
+	ILenum	Format;
+
+	Width = GetLittleUInt();
+	Height = GetLittleUInt();
+	Depth = GetLittleUInt();
+	Bpp = igetc();
+	Bpc = igetc();
+	if (Bpc == IL_EOF)
+		return IL_FALSE;
 
-	if (iread(&iCurImage->Bpc, 1, 1) != 1)
+	switch (Bpp)
+	{
+		case 1:
+			Format = IL_LUMINANCE;
+			break;
+		case 2:
+			Format = IL_LUMINANCE_ALPHA;
+			break;
+		case 3:
+			Format = IL_RGB;
+			break;
+		case 4:
+			Format = IL_RGBA;
+			break;
+		default:
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+	}
+	if (ilGetTypeBpc((ILubyte)Bpc) == 0 || Width == 0 || Height == 0 || Depth == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, iCurImage->Bpp, 0, ilGetTypeBpc(iCurImage->Bpc), NULL)) {
+	if (!ilTexImage(Width, Height, Depth, (ILubyte)Bpp, Format, ilGetTypeBpc((ILubyte)Bpc), NULL)) {
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	// Tries to read the correct amount of data
 	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) < iCurImage->SizeOfData)
 		return IL_FALSE;
 
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		iCurImage->Origin = ilGetInteger(IL_ORIGIN_MODE);
-	}
-	else {
-		iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	}
-
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
 	return ilFixImage();
 }
 
@@ -166,22 +176,49 @@ ILuint ilSaveRawL(void *Lump, ILuint Size)
 }
 
 
-// Internal function used to load the raw data.
+// Internal function used to save the raw data.
 ILboolean iSaveRawInternal()
 {
+	ILimage		*TempImage;
+	ILenum		Format;
+	ILboolean	bRet;
+
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	SaveLittleUInt(iCurImage->Width);
-	SaveLittleUInt(iCurImage->Height);
-	SaveLittleUInt(iCurImage->Depth);
-	iputc(iCurImage->Bpp);
-	iputc(iCurImage->Bpc);
-	iwrite(iCurImage->Data, 1, iCurImage->SizeOfData);
+	// The file only has the number of channels, so each number stands for a single format.
+	switch (iCurImage->Format)
+	{
+		case IL_COLOUR_INDEX:
+			Format = ilGetPalBaseType(iCurImage->Pal.PalType) == IL_BGRA || ilGetPalBaseType(iCurImage->Pal.PalType) == IL_RGBA ?
+				IL_RGBA : IL_RGB;
+			break;
+		case IL_BGR:
+			Format = IL_RGB;
+			break;
+		case IL_BGRA:
+		case IL_ALPHA:
+			Format = IL_RGBA;
+			break;
+		default:
+			Format = iCurImage->Format;
+	}
 
-	return IL_TRUE;
+	TempImage = iGetSaveImage(iCurImage, Format, iCurImage->Type, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL)
+		return IL_FALSE;
+
+	SaveLittleUInt(TempImage->Width);
+	SaveLittleUInt(TempImage->Height);
+	SaveLittleUInt(TempImage->Depth);
+	iputc(TempImage->Bpp);
+	iputc(TempImage->Bpc);
+	bRet = (ILuint)iwrite(TempImage->Data, 1, TempImage->SizeOfData) == TempImage->SizeOfData;
+	ilCloseImage(TempImage);
+
+	return bRet;
 }
 
 
-- 
2.43.0


From 1f462768dfcdfa09fcb82c56468af7f063603a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 105/185] fix: ilSaveData wrote to a handle opened for reading,
 ignored the file mode and the origin

---
 DevIL/src-IL/src/il_rawdata.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 0ba66b6..26892f7 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -15,6 +15,8 @@
 //#ifndef IL_NO_DATA
 
 
+extern ILboolean iWriteFailed;
+
 ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp);
 
 
@@ -97,23 +99,41 @@ ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte B
 //! Save the current image to FileName as raw data
 ILboolean ILAPIENTRY ilSaveData(ILconst_string FileName)
 {
-	ILHANDLE DataFile;
+	ILHANDLE	DataFile;
+	ILimage		*TempImage;
+	ILboolean	bRet;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	DataFile = iopenr(FileName);
+	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
+		if (iFileExists(FileName)) {
+			ilSetError(IL_FILE_ALREADY_EXISTS);
+			return IL_FALSE;
+		}
+	}
+
+	// ilLoadData() reads the rows from the top.
+	TempImage = iGetSaveImage(iCurImage, iCurImage->Format, iCurImage->Type, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL)
+		return IL_FALSE;
+
+	DataFile = iopenw(FileName);
 	if (DataFile == NULL) {
+		ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-	iwrite(iCurImage->Data, 1, iCurImage->SizeOfData);
-	icloser(DataFile);
+	iSetOutputFile(DataFile);
+	iWriteFailed = IL_FALSE;
+	bRet = (ILuint)iwrite(TempImage->Data, 1, TempImage->SizeOfData) == TempImage->SizeOfData;
+	iclosew(DataFile);
+	ilCloseImage(TempImage);
 
-	return IL_TRUE;
+	return bRet && !iWriteFailed;
 }
 
 
-- 
2.43.0


From 46a026f8b214ae6c16cfee3e32ad7b93762f12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 106/185] fix: C header: the name and the converted image
 leaked, the origin was ignored and write errors were not noticed

---
 DevIL/src-IL/src/il_header.cpp | 63 +++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/DevIL/src-IL/src/il_header.cpp b/DevIL/src-IL/src/il_header.cpp
index 4115afe..4a8cf4d 100644
--- a/DevIL/src-IL/src/il_header.cpp
+++ b/DevIL/src-IL/src/il_header.cpp
@@ -23,48 +23,51 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 	FILE		*HeadFile;
 	ILuint		i = 0, j;
 	ILimage		*TempImage;
+	char		*HeaderName;
 	const char	*Name;
+	ILboolean	bFailed;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Name = iGetString(IL_CHEAD_HEADER_STRING);
-	if (Name == NULL)
-		Name = InternalName;
+	HeaderName = iGetString(IL_CHEAD_HEADER_STRING);
+	Name = HeaderName != NULL ? HeaderName : InternalName;
 
 	if (FileName == NULL || Name == NULL ||
 		ilStrLen(FileName) < 1 || ilCharStrLen(Name) < 1) {
+		ifree(HeaderName);
 		ilSetError(IL_INVALID_VALUE);
 		return IL_FALSE;
 	}
 
 	if (!iCheckExtension(FileName, IL_TEXT("h"))) {
+		ifree(HeaderName);
 		ilSetError(IL_INVALID_EXTENSION);
 		return IL_FALSE;
 	}
 
 	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
 		if (iFileExists(FileName)) {
+			ifree(HeaderName);
 			ilSetError(IL_FILE_ALREADY_EXISTS);
             return IL_FALSE;
 		}
 	}
 
-	if (iCurImage->Bpc > 1) {
-		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
-           return IL_FALSE;
-	} else {
-		TempImage = iCurImage;
+	// The array is one of bytes and starts with the top row.
+	TempImage = iGetSaveImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL) {
+		ifree(HeaderName);
+		return IL_FALSE;
 	}
 
 #ifndef _UNICODE
 	HeadFile = fopen(FileName, "wb");
 #else
 	#ifdef _WIN32
-		HeadFile = _wfopen(FileName, L"rb");
+		HeadFile = _wfopen(FileName, L"wb");
 	#else
 		HeadFile = fopen((char*)FileName, "rb");
 	#endif
@@ -72,6 +75,8 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 #endif//_UNICODE
 
 	if (HeadFile == NULL) {
+		ilCloseImage(TempImage);
+		ifree(HeaderName);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
         return IL_FALSE;
 	}
@@ -79,12 +84,12 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 	fprintf(HeadFile, "//#include <il/il.h>\n");
 	fprintf(HeadFile, "// C Image Header:\n\n\n");
 	fprintf(HeadFile, "// IMAGE_BPP is in bytes per pixel, *not* bits\n");
-    fprintf(HeadFile, "#define IMAGE_BPP %d\n",iCurImage->Bpp);
-	fprintf(HeadFile, "#define IMAGE_WIDTH   %d\n", iCurImage->Width);
-	fprintf(HeadFile, "#define IMAGE_HEIGHT  %d\n", iCurImage->Height);	
-	fprintf(HeadFile, "#define IMAGE_DEPTH   %d\n\n\n", iCurImage->Depth);
-	fprintf(HeadFile, "#define IMAGE_TYPE    0x%X\n", iCurImage->Type);
-	fprintf(HeadFile, "#define IMAGE_FORMAT  0x%X\n\n\n", iCurImage->Format);
+    fprintf(HeadFile, "#define IMAGE_BPP %d\n",TempImage->Bpp);
+	fprintf(HeadFile, "#define IMAGE_WIDTH   %d\n", TempImage->Width);
+	fprintf(HeadFile, "#define IMAGE_HEIGHT  %d\n", TempImage->Height);	
+	fprintf(HeadFile, "#define IMAGE_DEPTH   %d\n\n\n", TempImage->Depth);
+	fprintf(HeadFile, "#define IMAGE_TYPE    0x%X\n", TempImage->Type);
+	fprintf(HeadFile, "#define IMAGE_FORMAT  0x%X\n\n\n", TempImage->Format);
     fprintf(HeadFile, "ILubyte %s[] = {\n", Name);
         
 
@@ -100,33 +105,37 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 		}
 		fprintf(HeadFile, "\n");
 	}
-	if (TempImage != iCurImage)
-		ilCloseImage(TempImage);
-
 	fprintf(HeadFile, "};\n");
 
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE) {
+	if (TempImage->Pal.Palette && TempImage->Pal.PalSize && TempImage->Pal.PalType != IL_PAL_NONE) {
 		fprintf(HeadFile, "\n\n");
-		fprintf(HeadFile, "#define IMAGE_PALSIZE %u\n\n", iCurImage->Pal.PalSize);
-		fprintf(HeadFile, "#define IMAGE_PALTYPE 0x%X\n\n", iCurImage->Pal.PalType);
+		fprintf(HeadFile, "#define IMAGE_PALSIZE %u\n\n", TempImage->Pal.PalSize);
+		fprintf(HeadFile, "#define IMAGE_PALTYPE 0x%X\n\n", TempImage->Pal.PalType);
         fprintf(HeadFile, "ILubyte %sPal[] = {\n", Name);
-		for (i = 0; i < iCurImage->Pal.PalSize; i += MAX_LINE_WIDTH) {
+		for (i = 0; i < TempImage->Pal.PalSize; i += MAX_LINE_WIDTH) {
 			fprintf(HeadFile, "\t");
 			for (j = 0; j < MAX_LINE_WIDTH; j++) {
-				if (i + j >= iCurImage->Pal.PalSize - 1) {
-					fprintf(HeadFile, " %4d", iCurImage->Pal.Palette[i+j]);
+				if (i + j >= TempImage->Pal.PalSize - 1) {
+					fprintf(HeadFile, " %4d", TempImage->Pal.Palette[i+j]);
 					break;
 				}
 				else
-					fprintf(HeadFile, " %4d,", iCurImage->Pal.Palette[i+j]);
+					fprintf(HeadFile, " %4d,", TempImage->Pal.Palette[i+j]);
 			}
 			fprintf(HeadFile, "\n");
 		}
 
 		fprintf(HeadFile, "};\n");
 	}
-	fclose(HeadFile);
+	ilCloseImage(TempImage);
+	ifree(HeaderName);
+
+	bFailed = ferror(HeadFile) != 0;
+	if (fclose(HeadFile) != 0 || bFailed) {
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
 	return IL_TRUE;
 }
 
-- 
2.43.0


From f4716bd3188df36801a7e46eb5dcea370d3bb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 107/185] fix: PCX: saving an indexed image with a large
 palette never ended, non-indexed images got a palette, colours were planes of
 the wrong image

---
 DevIL/src-IL/src/il_pcx.cpp | 109 +++++++++++++++---------------------
 1 file changed, 44 insertions(+), 65 deletions(-)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 63d2568..a528b89 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -469,55 +469,48 @@ ILuint ilSavePcxL(void *Lump, ILuint Size)
 ILboolean iSavePcxInternal()
 {
 	ILuint	i, c, PalSize;
-	ILpal	*TempPal;
-	ILimage	*TempImage = iCurImage;
-	ILubyte	*TempData;
+	ILpal	*TempPal = NULL;
+	ILimage	*TempImage;
+	ILenum	Format;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	// The header has 16 bits for the last column and row and for the size of a line, which is even.
+	if (iCurImage->Width > 65534 || iCurImage->Height > 65536) {
+		ilSetError(IL_INVALID_VALUE);
+		return IL_FALSE;
+	}
+
 	switch (iCurImage->Format)
 	{
-		case IL_LUMINANCE:
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-			if (TempImage == NULL)
-				return IL_FALSE;
-			break;
-
 		case IL_BGR:
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
-			if (TempImage == NULL)
-				return IL_FALSE;
+			Format = IL_RGB;
 			break;
 
 		case IL_BGRA:
-			TempImage = iConvertImage(iCurImage, IL_RGBA, IL_UNSIGNED_BYTE);
-			if (TempImage == NULL)
-				return IL_FALSE;
+		case IL_LUMINANCE_ALPHA:
+		case IL_ALPHA:
+			Format = IL_RGBA;
 			break;
 
-		default:
-			if (iCurImage->Bpc > 1) {
-				TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-				if (TempImage == NULL)
-					return IL_FALSE;
-			}
+		default:  // A luminance image is saved with a grey palette.
+			Format = iCurImage->Format;
 	}
 
-	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			if (TempImage != iCurImage) {
-				ilCloseImage(TempImage);
-			}
+	TempImage = iGetSaveImage(iCurImage, Format, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL)
+		return IL_FALSE;
+
+	if (TempImage->Format == IL_COLOUR_INDEX) {
+		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
+		if (TempPal == NULL) {
+			ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
-	else {
-		TempData = TempImage->Data;
-	}
 
 
 	iputc(0xA);  // Manufacturer - always 10
@@ -526,8 +519,8 @@ ILboolean iSavePcxInternal()
 	iputc(0x8);  // Bits per channel
 	SaveLittleUShort(0);  // X Minimum
 	SaveLittleUShort(0);  // Y Minimum
-	SaveLittleUShort((ILushort)(iCurImage->Width - 1));
-	SaveLittleUShort((ILushort)(iCurImage->Height - 1));
+	SaveLittleUShort((ILushort)(TempImage->Width - 1));
+	SaveLittleUShort((ILushort)(TempImage->Height - 1));
 	SaveLittleUShort(0);
 	SaveLittleUShort(0);
 
@@ -537,9 +530,9 @@ ILboolean iSavePcxInternal()
 	}
 	iputc(0x0);  // Reserved - always 0
 
-	iputc(iCurImage->Bpp);  // Number of planes - only 1 is supported right now
+	iputc(TempImage->Bpp);  // Number of planes
 
-	SaveLittleUShort((ILushort)(iCurImage->Width & 1 ? iCurImage->Width + 1 : iCurImage->Width));  // Bps
+	SaveLittleUShort((ILushort)(TempImage->Width & 1 ? TempImage->Width + 1 : TempImage->Width));  // Bps
 	SaveLittleUShort(0x1);  // Palette type - ignored?
 
 	// Mainly filler info
@@ -550,46 +543,32 @@ ILboolean iSavePcxInternal()
 	// Output data
 	for (i = 0; i < TempImage->Height; i++) {
 		for (c = 0; c < TempImage->Bpp; c++) {
-			encLine(TempData + TempImage->Bps * i + c, TempImage->Width, (ILubyte)(TempImage->Bpp - 1));
+			encLine(TempImage->Data + TempImage->Bps * i + c, TempImage->Width, (ILubyte)(TempImage->Bpp - 1));
 		}
 	}
 
-	// Automatically assuming we have a palette...dangerous!
-	//	Also assuming 3 bpp palette
-	iputc(0xC);  // Pad byte must have this value
-
-	// If the current image has a palette, take care of it
+	// Images of one plane end with a palette of 256 colours.
 	if (TempImage->Format == IL_COLOUR_INDEX) {
-		// If the palette in .pcx format, write it directly
-		if (TempImage->Pal.PalType == IL_PAL_RGB24) {
-			iwrite(TempImage->Pal.Palette, 1, TempImage->Pal.PalSize);
-		}
-		else {
-			TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
-			if (TempPal == NULL) {
-				if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
-					ifree(TempData);
-				if (TempImage != iCurImage)
-					ilCloseImage(TempImage);
-				return IL_FALSE;
-			}
+		iputc(0xC);  // Pad byte must have this value
+		PalSize = TempPal->PalSize < 768 ? TempPal->PalSize : 768;
+		iwrite(TempPal->Palette, 1, PalSize);
 
-			iwrite(TempPal->Palette, 1, TempPal->PalSize);
-			ifree(TempPal->Palette);
-			ifree(TempPal);
+		// If the palette is not all 256 colours, we have to pad it.
+		for (i = PalSize; i < 768; i++) {
+			iputc(0x0);
 		}
-	}
 
-	// If the palette is not all 256 colours, we have to pad it.
-	PalSize = 768 - iCurImage->Pal.PalSize;
-	for (i = 0; i < PalSize; i++) {
-		iputc(0x0);
+		ifree(TempPal->Palette);
+		ifree(TempPal);
+	}
+	else if (TempImage->Format == IL_LUMINANCE) {
+		iputc(0xC);
+		for (i = 0; i < 768; i++) {
+			iputc((ILubyte)(i / 3));
+		}
 	}
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
-		ifree(TempData);
-	if (TempImage != iCurImage)
-		ilCloseImage(TempImage);
+	ilCloseImage(TempImage);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From 96b8e1243f37943ac65a84ba9f29d71bfaa90a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 108/185] fix: PNM: the kind of file was never taken from the
 name, PGM files held colour indices, 16 bit samples were cut, PBM was
 inverted

---
 DevIL/src-IL/src/il_pnm.cpp | 147 +++++++++++++++++-------------------
 1 file changed, 69 insertions(+), 78 deletions(-)

diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index 0086ff7..b1daf5d 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -567,6 +567,8 @@ ILboolean iGetWord(ILboolean final)
 
 ILstring FName = NULL;
 
+static ILuint iSavePnmFile(ILHANDLE File);
+
 //! Writes a Pnm file
 ILboolean ilSavePnm(const ILstring FileName)
 {
@@ -586,7 +588,8 @@ ILboolean ilSavePnm(const ILstring FileName)
 		return IL_FALSE;
 	}
 
-	PnmSize = ilSavePnmF(PnmFile);
+	FName = (ILstring)FileName;
+	PnmSize = iSavePnmFile(PnmFile);
 	iclosew(PnmFile);
 
 	if (PnmSize == 0)
@@ -597,6 +600,14 @@ ILboolean ilSavePnm(const ILstring FileName)
 
 //! Writes a Pnm to an already-opened file
 ILuint ilSavePnmF(ILHANDLE File)
+{
+	FName = NULL;
+	return iSavePnmFile(File);
+}
+
+
+// Internal function used to save a Pnm of the kind the extension of FName asks for to a file
+static ILuint iSavePnmFile(ILHANDLE File)
 {
 	ILuint Pos;
 	iSetOutputFile(File);
@@ -623,12 +634,12 @@ ILuint ilSavePnmL(void *Lump, ILuint Size)
 // Internal function used to save the Pnm.
 ILboolean iSavePnmInternal()
 {
-	ILuint		Bpp, MaxVal = UCHAR_MAX, i = 0, j, k;
-	ILenum		Type = 0;
+	ILuint		MaxVal = UCHAR_MAX, i, x, y, Val;
+	ILubyte		Bits;
+	ILenum		Type = 0, Format;
 	ILuint		LinePos = 0;  // Cannot exceed 70 for pnm's!
 	ILboolean	Binary;
 	ILimage		*TempImage;
-	ILubyte		*TempData;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -667,109 +678,89 @@ ILboolean iSavePnmInternal()
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
-	if (MaxVal > UCHAR_MAX && Type >= IL_PBM_BINARY) {  // binary cannot be higher than 255
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+
+	switch (Type)
+	{
+		case IL_PBM_ASCII:
+		case IL_PBM_BINARY:
+			Format = IL_LUMINANCE;
+			MaxVal = UCHAR_MAX;
+			break;
+		case IL_PGM_ASCII:
+		case IL_PGM_BINARY:
+			Format = IL_LUMINANCE;
+			break;
+		default:  // IL_PPM_ASCII or IL_PPM_BINARY
+			Format = IL_RGB;
+			break;
 	}
 
+	TempImage = iGetSaveImage(iCurImage, Format, MaxVal == UCHAR_MAX ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL)
+		return IL_FALSE;
+
 	switch (Type)
 	{
 		case IL_PBM_ASCII:
-			Bpp = 1;
 			ilprintf("P1\n");
-			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
 			break;
-		//case IL_PBM_BINARY:  // Don't want to mess with saving bits just yet...
-			//Bpp = 1;
-			//ilprintf("P4\n");
-			//break;
-		case IL_PBM_BINARY:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
 		case IL_PGM_ASCII:
-			Bpp = 1;
 			ilprintf("P2\n");
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-			break;
-		case IL_PGM_BINARY:
-			Bpp = 1;
-			ilprintf("P5\n");
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 			break;
 		case IL_PPM_ASCII:
-			Bpp = 3;
 			ilprintf("P3\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+			break;
+		case IL_PBM_BINARY:
+			ilprintf("P4\n");
+			break;
+		case IL_PGM_BINARY:
+			ilprintf("P5\n");
 			break;
 		case IL_PPM_BINARY:
-			Bpp = 3;
 			ilprintf("P6\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
 			break;
-		default:
-			ilSetError(IL_INTERNAL_ERROR);
-			return IL_FALSE;
-	}
-
-	if (TempImage == NULL)
-		return IL_FALSE;
-
-	if (Bpp != TempImage->Bpp) {
-		ilSetError(IL_INVALID_CONVERSION);
-		return IL_FALSE;
 	}
-
-	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			ilCloseImage(TempImage);
-			return IL_FALSE;
+	ilprintf("%u %u\n", TempImage->Width, TempImage->Height);
+	if (Type != IL_PBM_BINARY && Type != IL_PBM_ASCII)  // not needed for .pbm's (only 0 and 1)
+		ilprintf("%u\n", MaxVal);
+
+	if (Type == IL_PBM_BINARY) {  // Eight pixels in a byte, a set bit is black
+		for (y = 0; y < TempImage->Height; y++) {
+			for (x = 0; x < TempImage->Width; x += 8) {
+				Bits = 0;
+				for (i = 0; i < 8 && x + i < TempImage->Width; i++) {
+					if (TempImage->Data[y * TempImage->Bps + x + i] <= 127)
+						Bits |= 0x80 >> i;
+				}
+				iputc(Bits);
+			}
 		}
 	}
 	else {
-		TempData = TempImage->Data;
-	}
-
-	ilprintf("%d %d\n", TempImage->Width, TempImage->Height);
-	if (Type != IL_PBM_BINARY && Type != IL_PBM_ASCII)  // not needed for .pbm's (only 0 and 1)
-		ilprintf("%d\n", MaxVal);
+		for (i = 0; i < TempImage->SizeOfPlane / TempImage->Bpc; i++) {
+			if (TempImage->Type == IL_UNSIGNED_SHORT)
+				Val = ((ILushort*)TempImage->Data)[i];
+			else
+				Val = TempImage->Data[i];
 
-	while (i < TempImage->SizeOfPlane) {
-		for (j = 0; j < Bpp; j++) {
 			if (Binary) {
-				if (Type == IL_PBM_BINARY) {
-					iputc((ILubyte)(TempData[i] > 127 ? 1 : 0));
-				}
-				else {
-					iputc(TempData[i]);
-				}
+				if (TempImage->Type == IL_UNSIGNED_SHORT)  // Most significant byte first
+					SaveBigUShort((ILushort)Val);
+				else
+					iputc((ILubyte)Val);
 			}
 			else {
-				if (TempImage->Type == IL_UNSIGNED_BYTE)
-					k = TempData[i];
-				else  // IL_UNSIGNED_SHORT
-					k = *((ILushort*)TempData + i);
-				if (Type == IL_PBM_ASCII) {
-					LinePos += ilprintf("%d ", TempData[i] > 127 ? 1 : 0);
-				}
-				else {
-					LinePos += ilprintf("%d ", TempData[i]);
+				if (Type == IL_PBM_ASCII)
+					Val = Val > 127 ? 0 : 1;  // 1 is black
+				LinePos += ilprintf("%u ", Val);
+				if (LinePos > 62) {  // Just a good number =]
+					ilprintf("\n");
+					LinePos = 0;
 				}
 			}
-
-			if (TempImage->Type == IL_UNSIGNED_SHORT)
-				i++;
-			i++;
-		}
-
-		if (LinePos > 65) {  // Just a good number =]
-			ilprintf("\n");
-			LinePos = 0;
 		}
 	}
 
-	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT)
-		ifree(TempData);
 	ilCloseImage(TempImage);
 
 	return IL_TRUE;
-- 
2.43.0


From f80118ed5e7b21443fd82ae8a46756a91518cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 109/185] fix: VTF: lower left images were saved upside down,
 wrong formats were converted to, buffers leaked

---
 DevIL/src-IL/src/il_vtf.cpp | 113 ++++++++++++++----------------------
 1 file changed, 45 insertions(+), 68 deletions(-)

diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index ffc7bc2..0dd745e 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -720,7 +720,12 @@ ILboolean VtfInitMipmaps(ILimage *BaseImage, VTFHEAD *Header)
 
 ILboolean CheckDimensions()
 {
-	if ((ilNextPower2(iCurImage->Width) != iCurImage->Width) || (ilNextPower2(iCurImage->Height) != iCurImage->Height)) {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	if ((ilNextPower2(iCurImage->Width) != iCurImage->Width) || (ilNextPower2(iCurImage->Height) != iCurImage->Height) ||
+		iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {
 		ilSetError(IL_BAD_DIMENSIONS);
 		return IL_FALSE;
 	}
@@ -789,17 +794,20 @@ ILuint ilSaveVtfL(void *Lump, ILuint Size)
 // Internal function used to save the Vtf.
 ILboolean iSaveVtfInternal()
 {
-	ILimage	*TempImage = iCurImage;
-	ILubyte	*TempData, *CompData;
-	ILuint	Format, i, CompSize;
-	ILenum	Compression;
+	ILimage		*TempImage = NULL;
+	ILubyte		*CompData = NULL;
+	ILuint		Format, i, CompSize = 0;
+	ILenum		Compression, ImageFormat, ImageType;
+	ILboolean	bRet;
 
 	// Find out if the user has specified to use DXT compression.
 	Compression = ilGetInteger(IL_VTF_COMP);
 
 	//@TODO: Other formats
 	if (Compression == IL_DXT_NO_COMP) {
-		switch (TempImage->Format)
+		ImageFormat = iCurImage->Format;
+		ImageType = IL_UNSIGNED_BYTE;
+		switch (ImageFormat)
 		{
 			case IL_RGB:
 				Format = IMAGE_FORMAT_RGB888;
@@ -825,20 +833,18 @@ ILboolean iSaveVtfInternal()
 			//case IL_COLOUR_INDEX:
 			default:
 				Format = IMAGE_FORMAT_BGRA8888;
-				TempImage = iConvertImage(iCurImage, IL_BGRA, IL_UNSIGNED_BYTE);
-				if (TempImage == NULL)
-					return IL_FALSE;
+				ImageFormat = IL_BGRA;
 		}
 
 		//@TODO: When we have the half format available internally, also use IMAGE_FORMAT_RGBA16161616F.
-		if (TempImage->Format == IL_RGBA && TempImage->Type == IL_UNSIGNED_SHORT) {
+		if (ImageFormat == IL_RGBA && iCurImage->Type == IL_UNSIGNED_SHORT) {
 			Format = IMAGE_FORMAT_RGBA16161616;
+			ImageType = IL_UNSIGNED_SHORT;
 		}
-		else if (TempImage->Type != IL_UNSIGNED_BYTE) {  //@TODO: Any possibility for shorts, etc. to be used?
-			TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
-			if (TempImage == NULL)
-				return IL_FALSE;
-		}
+
+		TempImage = iGetSaveImage(iCurImage, ImageFormat, ImageType, IL_ORIGIN_UPPER_LEFT);
+		if (TempImage == NULL)
+			return IL_FALSE;
 	}
 	else {  // We are using DXT compression.
 		switch (Compression)
@@ -853,19 +859,24 @@ ILboolean iSaveVtfInternal()
 				Format = IMAGE_FORMAT_DXT5;
 				break;
 			default:  // Should never reach this point.
-				ilSetError(IL_INTERNAL_ERROR);
-				Format = IMAGE_FORMAT_DXT5;
+				ilSetError(IL_INVALID_PARAM);
+				return IL_FALSE;
 		}
-	}
 
-	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+		// We have to find out how much we are writing first.
+		CompSize = ilGetDXTCData(NULL, 0, Compression);
+		if (CompSize == 0)
+			return IL_FALSE;
+		CompData = (ILubyte*)ialloc(CompSize);
+		if (CompData == NULL)
+			return IL_FALSE;
+
+		// DXT compress the data.
+		CompSize = ilGetDXTCData(CompData, CompSize, Compression);
+		if (CompSize == 0) {
+			ifree(CompData);
 			return IL_FALSE;
 		}
-	} else {
-		TempData = TempImage->Data;
 	}
 
 	// Write the file signature.
@@ -876,8 +887,8 @@ ILboolean iSaveVtfInternal()
 	// Write the header size.
 	SaveLittleUInt(80);
 	// Now we write the width and height of the image.
-	SaveLittleUShort(TempImage->Width);
-	SaveLittleUShort(TempImage->Height);
+	SaveLittleUShort(iCurImage->Width);
+	SaveLittleUShort(iCurImage->Height);
 	//@TODO: This is supposed to be the flags used.  What should we use here?  Let users specify?
 	SaveLittleUInt(0);
 	// Number of frames in the animation. - @TODO: Change to use animations.
@@ -911,50 +922,16 @@ ILboolean iSaveVtfInternal()
 		iputc(0);
 	}
 
-	if (Compression == IL_DXT_NO_COMP) {
-		// We just write the image data directly.
-		if (iwrite(TempImage->Data, TempImage->SizeOfData, 1) != 1)
-			return IL_FALSE;
-	}
-	else {  // Do DXT compression here and write.
-		// We have to find out how much we are writing first.
-		CompSize = ilGetDXTCData(NULL, 0, Compression);
-		if (CompSize == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-		CompData = (ILubyte*)ialloc(CompSize);
-		if (CompData == NULL) {
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-
-		// DXT compress the data.
-		CompSize = ilGetDXTCData(CompData, CompSize, Compression);
-		if (CompSize == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-		// Finally write the data.
-		if (iwrite(CompData, CompSize, 1) != 1) {
-			ifree(CompData);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-	}
+	// We just write the image data directly, or the compressed data.
+	if (Compression == IL_DXT_NO_COMP)
+		bRet = iwrite(TempImage->Data, TempImage->SizeOfPlane, 1) == 1;
+	else
+		bRet = iwrite(CompData, CompSize, 1) == 1;
 
-	if (TempData != TempImage->Data)
-		ifree(TempData);
-	if (TempImage != iCurImage)
-		ilCloseImage(TempImage);
+	ifree(CompData);
+	ilCloseImage(TempImage);
 
-	return IL_TRUE;
+	return bRet;
 }
 
 
-- 
2.43.0


From bf05d6c11e8954880ca1fbfae9656ba9ca2c0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 110/185] fix: WBMP: the modes were ignored on load, the
 colours written were inverted by chance, saving without an image crashed

---
 DevIL/src-IL/src/il_wbmp.cpp | 41 ++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 2bf07d5..331b6e1 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -116,7 +116,7 @@ ILboolean iLoadWbmpInternal(void)
 
 	bclose(File);
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
@@ -224,12 +224,14 @@ ILboolean iSaveWbmpInternal()
 	ILint	k;
 	ILubyte	Val;
 	ILubyte	*TempData;
+	ILubyte	Colours[256][4];
+	ILuint	Lum[2], Used[2] = { 0, 0 };
+	ILubyte	White[2];
 
-	iputc(0);  // First two header values
-	iputc(0);  //  must be 0.
-
-	WbmpPutMultibyte(iCurImage->Width);  // Write the width
-	WbmpPutMultibyte(iCurImage->Height); //  and the height.
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	//TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
 	if (iGetInt(IL_QUANTIZATION_MODE) == IL_NEU_QUANT)
@@ -240,6 +242,11 @@ ILboolean iSaveWbmpInternal()
 	if (TempImage == NULL)
 		return IL_FALSE;
 
+	if (!iExpandPal(&TempImage->Pal, Colours)) {
+		ilCloseImage(TempImage);
+		return IL_FALSE;
+	}
+
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
@@ -250,13 +257,33 @@ ILboolean iSaveWbmpInternal()
 		TempData = TempImage->Data;
 	}
 
+	// The brighter one of two colours is white, and a single one is what it is nearer to.
+	for (i = 0; i < TempImage->SizeOfPlane; i++) {
+		Used[TempData[i] == 1]++;
+	}
+	for (i = 0; i < 2; i++) {
+		Lum[i] = 212671 * Colours[i][0] + 715160 * Colours[i][1] + 72169 * Colours[i][2];
+	}
+	for (i = 0; i < 2; i++) {
+		if (Used[0] && Used[1] && Lum[0] != Lum[1])
+			White[i] = Lum[i] > Lum[1 - i];
+		else
+			White[i] = Lum[i] > 127 * 1000000;
+	}
+
+	iputc(0);  // First two header values
+	iputc(0);  //  must be 0.
+
+	WbmpPutMultibyte(TempImage->Width);  // Write the width
+	WbmpPutMultibyte(TempImage->Height); //  and the height.
+
 	for (i = 0; i < TempImage->Height; i++) {
 		for (j = 0; j < TempImage->Width; j += 8) {
 			Val = 0;
 			for (k = 0; k < 8; k++) {
 				if (j + k < TempImage->Width) {
 					//Val |= ((TempData[TempImage->Width * i + j + k] > 0x7F) ? (0x80 >> k) : 0x00);
-					Val |= ((TempData[TempImage->Width * i + j + k] == 1) ? (0x80 >> k) : 0x00);
+					Val |= (White[TempData[TempImage->Width * i + j + k] == 1] ? (0x80 >> k) : 0x00);
 				}
 			}
 			iputc(Val);
-- 
2.43.0


From 68c6d60b818b4f79980e802ec85dd1a728612b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 111/185] fix: HDR: negative and huge values overflowed, the
 image leaked when the header could not be written

---
 DevIL/src-IL/src/il_hdr.cpp | 50 +++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index fd7972f..6da0c4e 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -431,6 +431,9 @@ ILuint ilSaveHdrL(void *Lump, ILuint Size)
 //
 
 
+/* the largest value an rgbe pixel can hold: mantissa 255, exponent 127 */
+#define RGBE_MAX 1.69476560e38f
+
 /* standard conversion from float pixels to rgbe pixels */
 /* note: you can remove the "inline"s if your compiler complains about it */
 //static INLINE void 
@@ -440,6 +443,14 @@ float2rgbe(unsigned char rgbe[4], float red, float green, float blue)
   float v;
   int e;
 
+  /* there is neither a sign nor an exponent for what is not between 0 and 2^127 */
+  if (!(red > 0)) red = 0;
+  if (!(green > 0)) green = 0;
+  if (!(blue > 0)) blue = 0;
+  if (red > RGBE_MAX) red = RGBE_MAX;
+  if (green > RGBE_MAX) green = RGBE_MAX;
+  if (blue > RGBE_MAX) blue = RGBE_MAX;
+
   v = red;
   if (green > v) v = green;
   if (blue > v) v = blue;
@@ -500,7 +511,7 @@ ILboolean RGBE_WriteHeader(ILuint width, ILuint height, rgbe_header_info *info)
 	}
 	if (ilprintf("FORMAT=32-bit_rle_rgbe\n\n") < 0)
 		return IL_FALSE;
-	if (ilprintf("-Y %d +X %d\n", height, width) < 0)
+	if (ilprintf("-Y %u +X %u\n", height, width) < 0)
 		return IL_FALSE;
 	return IL_TRUE;
 }
@@ -591,7 +602,7 @@ ILboolean iSaveHdrInternal()
 	unsigned char rgbe[4];
 	ILubyte		*buffer;
 	ILfloat		*data;
-	ILuint		i;
+	ILuint		i, y;
 	ILboolean	bRet;
 
 	if (iCurImage == NULL) {
@@ -604,46 +615,39 @@ ILboolean iSaveHdrInternal()
 	stHeader.programtype[0] = 0;
 	stHeader.valid = 0;
 
-	if (iCurImage->Format != IL_UNSIGNED_BYTE) {
-		TempImage = iConvertImage(iCurImage, IL_RGB, IL_FLOAT);
-		if (TempImage == NULL)
-			return IL_FALSE;
-	}
-	else
-		TempImage = iCurImage;
+	TempImage = iGetSaveImage(iCurImage, IL_RGB, IL_FLOAT, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL)
+		return IL_FALSE;
 
-	if (!RGBE_WriteHeader(TempImage->Width, TempImage->Height, &stHeader))
+	if (!RGBE_WriteHeader(TempImage->Width, TempImage->Height, &stHeader)) {
+		ilCloseImage(TempImage);
 		return IL_FALSE;
+	}
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
-		iFlipBuffer(TempImage->Data, TempImage->Depth, TempImage->Bps, TempImage->Height);
 	data = (ILfloat*)TempImage->Data;
 
 	if ((TempImage->Width < 8)||(TempImage->Width > 0x7fff)) {
 		/* run length encoding is not allowed so write flat*/
 		bRet = RGBE_WritePixels(data,TempImage->Width*TempImage->Height);
-		if (iCurImage != TempImage)
-			ilCloseImage(TempImage);
+		ilCloseImage(TempImage);
 		return bRet;
 	}
 	buffer = (ILubyte*)ialloc(sizeof(ILubyte)*4*TempImage->Width);
 	if (buffer == NULL) {
 		/* no buffer space so write flat */
 		bRet = RGBE_WritePixels(data,TempImage->Width*TempImage->Height);
-		if (iCurImage != TempImage)
-			ilCloseImage(TempImage);
+		ilCloseImage(TempImage);
 		return bRet;
 	}
 
-	while(TempImage->Height-- > 0) {
+	for (y = 0; y < TempImage->Height; y++) {
 		rgbe[0] = 2;
 		rgbe[1] = 2;
 		rgbe[2] = TempImage->Width >> 8;
 		rgbe[3] = TempImage->Width & 0xFF;
 		if (iwrite(rgbe, sizeof(rgbe), 1) < 1) {
-			free(buffer);
-			if (iCurImage != TempImage)
-				ilCloseImage(TempImage);
+			ifree(buffer);
+			ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 
@@ -660,16 +664,14 @@ ILboolean iSaveHdrInternal()
 		for(i=0;i<4;i++) {
 			if (RGBE_WriteBytes_RLE(&buffer[i*TempImage->Width],TempImage->Width) != IL_TRUE) {
 				ifree(buffer);
-				if (iCurImage != TempImage)
-					ilCloseImage(TempImage);
+				ilCloseImage(TempImage);
 				return IL_FALSE;
 			}
 		}
 	}
 	ifree(buffer);
 
-	if (iCurImage != TempImage)
-		ilCloseImage(TempImage);
+	ilCloseImage(TempImage);
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 5f141669f6efae23da8430db1e969066f3d86c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 112/185] fix: TGA: saving to memory used the position of the
 previous, closed file

---
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 51d45b7..7b09248 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -595,8 +595,9 @@ ILuint ilSaveTargaF(ILHANDLE File)
 //! Writes a Targa to a memory "lump"
 ILuint ilSaveTargaL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTargaInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
-- 
2.43.0


From 9bbc56d86cf0d7a58e199ed6f5ec17f874b847fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 113/185] fix: PNG: errors of libpng crashed saving, the title
 was never written, float images could not be saved, indices without a colour
 were written

---
 DevIL/src-IL/src/il_png.cpp | 219 +++++++++++++++++-------------------
 1 file changed, 105 insertions(+), 114 deletions(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5df2148..1dffcf5 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -501,8 +501,11 @@ ILboolean iSavePngInternal()
 	png_structp png_ptr;
 	png_infop	info_ptr;
 	png_text	text[4];
-	ILenum		PngType;
-	ILuint		BitDepth, i, j;
+	png_color	Palette[256];
+	png_byte	Trans[256];
+	ILubyte		Colours[256][4];
+	ILenum		PngType, Format, Type;
+	ILuint		BitDepth, i, NumCols, NumTrans;
 	ILubyte 	**RowPtr = NULL;
 	ILimage 	*Temp = NULL;
 
@@ -511,67 +514,31 @@ ILboolean iSavePngInternal()
 		return IL_FALSE;
 	}
 
-	/* Create and initialize the png_struct with the desired error handler
-	* functions.  If you want to use the default stderr and longjump method,
-	* you can supply NULL for the last three parameters.  We also check that
-	* the library version is compatible with the one used at compile time,
-	* in case we are using dynamically linked libraries.  REQUIRED.
-	*/
-	png_ptr = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, png_error_func, png_warn_func);
-	if (png_ptr == NULL) {
-		ilSetError(IL_LIB_PNG_ERROR);
-		return IL_FALSE;
-	}
-
-	// Allocate/initialize the image information data.	REQUIRED
-	info_ptr = png_create_info_struct(png_ptr);
-	if (info_ptr == NULL) {
-		ilSetError(IL_LIB_PNG_ERROR);
-		goto error_label;
-	}
-
-	/*// Set error handling.  REQUIRED if you aren't supplying your own
-	//	error handling functions in the png_create_write_struct() call.
-	if (setjmp(png_jmpbuf(png_ptr))) {
-		// If we get here, we had a problem reading the file
-		png_destroy_write_struct(&png_ptr, &info_ptr);
-		ilSetError(IL_LIB_PNG_ERROR);
-		return IL_FALSE;
-	}*/
-
-//	png_init_io(png_ptr, PngFile);
-	png_set_write_fn(png_ptr, NULL, png_write, flush_data);
-
 	switch (iCurImage->Type)
 	{
 		case IL_BYTE:
 		case IL_UNSIGNED_BYTE:
-			Temp = iCurImage;
+			Type = iCurImage->Type;
 			BitDepth = 8;
 			break;
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
-			Temp = iCurImage;
+			Type = iCurImage->Type;
 			BitDepth = 16;
 			break;
-		case IL_INT:
-		case IL_UNSIGNED_INT:
-			Temp = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_SHORT);
-			if (Temp == NULL) {
-				png_destroy_write_struct(&png_ptr, &info_ptr);
-				return IL_FALSE;
-			}
+		default:
+			Type = IL_UNSIGNED_SHORT;
 			BitDepth = 16;
 			break;
-		default:
-			ilSetError(IL_INTERNAL_ERROR);
-			goto error_label;
 	}
 
-	switch (iCurImage->Format)
+	Format = iCurImage->Format;
+	switch (Format)
 	{
 		case IL_COLOUR_INDEX:
 			PngType = PNG_COLOR_TYPE_PALETTE;
+			Type = IL_UNSIGNED_BYTE;
+			BitDepth = 8;
 			break;
 		case IL_LUMINANCE:
 			PngType = PNG_COLOR_TYPE_GRAY;
@@ -587,11 +554,63 @@ ILboolean iSavePngInternal()
 		case IL_BGRA:
 			PngType = PNG_COLOR_TYPE_RGB_ALPHA;
 			break;
+		case IL_ALPHA:
+			PngType = PNG_COLOR_TYPE_RGB_ALPHA;
+			Format = IL_RGBA;
+			break;
 		default:
 			ilSetError(IL_INTERNAL_ERROR);
-			goto error_label;
+			return IL_FALSE;
+	}
+
+	if (Format == IL_COLOUR_INDEX && !iExpandPal(&iCurImage->Pal, Colours))
+		return IL_FALSE;
+
+	Temp = iGetSaveImage(iCurImage, Format, Type, IL_ORIGIN_UPPER_LEFT);
+	if (Temp == NULL)
+		return IL_FALSE;
+	RowPtr = (ILubyte**)ialloc(Temp->Height * sizeof(ILubyte*));
+	if (RowPtr == NULL) {
+		ilCloseImage(Temp);
+		return IL_FALSE;
+	}
+	for (i = 0; i < Temp->Height; i++) {
+		RowPtr[i] = Temp->Data + i * Temp->Bps;
+	}
+
+	imemclear(text, sizeof(png_text) * 4);
+
+	/* Create and initialize the png_struct with the desired error handler
+	* functions.  If you want to use the default stderr and longjump method,
+	* you can supply NULL for the last three parameters.  We also check that
+	* the library version is compatible with the one used at compile time,
+	* in case we are using dynamically linked libraries.  REQUIRED.
+	*/
+	png_ptr = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, png_error_func, png_warn_func);
+	if (png_ptr == NULL) {
+		ilSetError(IL_LIB_PNG_ERROR);
+		ifree(RowPtr);
+		ilCloseImage(Temp);
+		return IL_FALSE;
+	}
+
+	// Allocate/initialize the image information data.	REQUIRED
+	info_ptr = png_create_info_struct(png_ptr);
+	if (info_ptr == NULL) {
+		ilSetError(IL_LIB_PNG_ERROR);
+		goto error_label;
 	}
 
+	// Set error handling.  REQUIRED if you aren't supplying your own
+	//	error handling functions in the png_create_write_struct() call.
+	if (setjmp(png_jmpbuf(png_ptr))) {
+		// If we get here, we had a problem writing the file.  The error is set already.
+		goto error_label;
+	}
+
+//	png_init_io(png_ptr, PngFile);
+	png_set_write_fn(png_ptr, NULL, png_write, flush_data);
+
 	// Set the image information here.	Width and height are up to 2^31,
 	//	bit_depth is one of 1, 2, 4, 8, or 16, but valid values also depend on
 	//	the png_color_type selected. png_color_type is one of PNG_COLOR_TYPE_GRAY,
@@ -600,48 +619,41 @@ ILboolean iSavePngInternal()
 	//	PNG_INTERLACE_ADAM7, and the compression_type and filter_type MUST
 	//	currently be PNG_COMPRESSION_TYPE_BASE and PNG_FILTER_TYPE_BASE. REQUIRED
 	if (iGetInt(IL_PNG_INTERLACE) == IL_TRUE) {
-		png_set_IHDR(png_ptr, info_ptr, iCurImage->Width, iCurImage->Height, BitDepth, PngType,
+		png_set_IHDR(png_ptr, info_ptr, Temp->Width, Temp->Height, BitDepth, PngType,
 			PNG_INTERLACE_ADAM7, PNG_COMPRESSION_TYPE_BASE, PNG_FILTER_TYPE_BASE);
 	}
 	else {
-		png_set_IHDR(png_ptr, info_ptr, iCurImage->Width, iCurImage->Height, BitDepth, PngType,
+		png_set_IHDR(png_ptr, info_ptr, Temp->Width, Temp->Height, BitDepth, PngType,
 			PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_BASE, PNG_FILTER_TYPE_BASE);
 	}
 
     // set the palette if there is one.  REQUIRED for indexed-color images.
-	if (iCurImage->Format == IL_COLOUR_INDEX) {
-	    ILpal		*TempPal = NULL;
-        ILint       palType;
-        ILint numCols;
-
-        numCols = ilGetInteger(IL_PALETTE_NUM_COLS);
-        if(numCols>256) {
-            numCols = 256;  // png maximum
-        }
-
-		TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
-		png_set_PLTE(png_ptr, info_ptr, (png_colorp)TempPal->Palette, numCols);
-        ilClosePal(TempPal);
-
-        palType = ilGetInteger(IL_PALETTE_TYPE);
-        if( palType==IL_PAL_RGBA32 || palType==IL_PAL_BGRA32 ) {
-            // the palette has transparency, so we need a tRNS chunk.
-            png_byte trans[256];    // png supports up to 256 palette entries
-            int maxTrans = -1;
-            int i;
-            for(i=0; i<numCols; ++i) {
-                ILubyte alpha = iCurImage->Pal.Palette[(4*i) + 3];
-                trans[i] = alpha;
-                if(alpha<255) {
-                    // record the highest non-opaque index
-                    maxTrans = i;
-                }
-            }
-            // only write tRNS chunk if we've got some non-opaque colours
-            if(maxTrans!=-1) {
-                png_set_tRNS(png_ptr, info_ptr, trans, maxTrans+1, 0);
-            }
-        }
+	if (Format == IL_COLOUR_INDEX) {
+		NumCols = Temp->Pal.PalSize / ilGetBppPal(Temp->Pal.PalType);
+		if (NumCols > 256) {
+			NumCols = 256;  // png maximum
+		}
+		// Every index has to have a colour.
+		for (i = 0; i < Temp->SizeOfPlane; i++) {
+			if (Temp->Data[i] >= NumCols)
+				NumCols = Temp->Data[i] + 1;
+		}
+
+		NumTrans = 0;
+		for (i = 0; i < NumCols; i++) {
+			Palette[i].red = Colours[i][0];
+			Palette[i].green = Colours[i][1];
+			Palette[i].blue = Colours[i][2];
+			Trans[i] = Colours[i][3];
+			if (Trans[i] < 255) {
+				// record the highest non-opaque index
+				NumTrans = i + 1;
+			}
+		}
+		png_set_PLTE(png_ptr, info_ptr, Palette, NumCols);
+		// only write tRNS chunk if we've got some non-opaque colours
+		if (NumTrans != 0)
+			png_set_tRNS(png_ptr, info_ptr, Trans, NumTrans, 0);
 	}
 
 	/*
@@ -663,7 +675,6 @@ ILboolean iSavePngInternal()
 	//png_set_gAMA(png_ptr, info_ptr, gamma);
 
 	// Optionally write comments into the image.
-	imemclear(text, sizeof(png_text) * 4);
 	text[0].key = (png_charp)"Generated by";
 	text[0].text = (png_charp)"Generated by the Developer's Image Library (DevIL)";
 	text[0].compression = PNG_TEXT_COMPRESSION_NONE;
@@ -676,19 +687,11 @@ ILboolean iSavePngInternal()
 	text[3].key = (png_charp)"Title";
 	text[3].text = iGetString(IL_PNG_TITLE_STRING);
 	text[3].compression = PNG_TEXT_COMPRESSION_NONE;
-	png_set_text(png_ptr, info_ptr, text, 3);
+	png_set_text(png_ptr, info_ptr, text, 4);
 
 	// Write the file header information.  REQUIRED.
 	png_write_info(png_ptr, info_ptr);
 
-	// Free up our user-defined text.
-	if (text[1].text)
-		ifree(text[1].text);
-	if (text[2].text)
-		ifree(text[2].text);
-	if (text[3].text)
-		ifree(text[3].text);
-
 	/* Shift the pixels up to a legal bit depth and fill in
 	* as appropriate to correctly scale the image.
 	*/
@@ -701,7 +704,7 @@ ILboolean iSavePngInternal()
 	//png_set_swap_alpha(png_ptr);
 
 	// flip BGR pixels to RGB
-	if (iCurImage->Format == IL_BGR || iCurImage->Format == IL_BGRA)
+	if (Format == IL_BGR || Format == IL_BGRA)
 		png_set_bgr(png_ptr);
 
 	// swap bytes of 16-bit files to most significant byte first
@@ -709,21 +712,6 @@ ILboolean iSavePngInternal()
 	png_set_swap(png_ptr);
 	#endif//__LITTLE_ENDIAN__
 
-	RowPtr = (ILubyte**)ialloc(iCurImage->Height * sizeof(ILubyte*));
-	if (RowPtr == NULL)
-		goto error_label;
-	if (iCurImage->Origin == IL_ORIGIN_UPPER_LEFT) {
-		for (i = 0; i < iCurImage->Height; i++) {
-			RowPtr[i] = Temp->Data + i * Temp->Bps;
-		}
-	}
-	else {
-		j = iCurImage->Height - 1;
-		for (i = 0; i < iCurImage->Height; i++, j--) {
-			RowPtr[i] = Temp->Data + j * Temp->Bps;
-		}
-	}
-
 	// Writes the image.
 	png_write_image(png_ptr, RowPtr);
 
@@ -732,19 +720,22 @@ ILboolean iSavePngInternal()
 
 	// clean up after the write, and ifree any memory allocated
 	png_destroy_write_struct(&png_ptr, &info_ptr);
-
+	for (i = 1; i < 4; i++) {
+		ifree(text[i].text);
+	}
 	ifree(RowPtr);
-
-	if (Temp != iCurImage)
-		ilCloseImage(Temp);
+	ilCloseImage(Temp);
 
 	return IL_TRUE;
 
 error_label:
 	png_destroy_write_struct(&png_ptr, &info_ptr);
+	for (i = 1; i < 4; i++) {
+		ifree(text[i].text);
+	}
 	ifree(RowPtr);
-	if (Temp != iCurImage)
-		ilCloseImage(Temp);
+	ilCloseImage(Temp);
+
 	return IL_FALSE;
 }
 
-- 
2.43.0


From 1c1085315bb06908622891ba50b0611a00d1046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 114/185] fix: JPEG: errors of libjpeg ended the process while
 saving, truncated files were loaded as if complete

---
 DevIL/src-IL/src/il_jpeg.cpp | 134 +++++++++++++----------------------
 1 file changed, 48 insertions(+), 86 deletions(-)

diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index 8cf2d5e..b105e5e 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -34,6 +34,7 @@
 		#endif
 
 		#include <jpeglib.h>
+		#include <jerror.h>
 
 		#if JPEG_LIB_VERSION < 62
 			#warning DevIL was designed with libjpeg 6b or higher in mind.  Consider upgrading at www.ijg.org
@@ -63,8 +64,6 @@
 #endif
 
 
-static ILboolean jpgErrorOccured = IL_FALSE;
-
 // define a protype of ilLoadFromJpegStruct
 ILboolean ilLoadFromJpegStruct(void *_JpegInfo);
 
@@ -154,13 +153,6 @@ ILboolean ilIsValidJpegL(const void *Lump, ILuint Size)
 #ifndef IL_USE_IJL // Use libjpeg instead of the IJL.
 
 // Overrides libjpeg's stupid error/warning handlers. =P
-//void ExitErrorHandle (struct jpeg_common_struct *JpegInfo)
-void ExitErrorHandle(j_common_ptr cinfo)
-{
-	ilSetError(IL_LIB_JPEG_ERROR);
-	jpgErrorOccured = IL_TRUE;
-	return;
-}
 void OutputMsg(struct jpeg_common_struct *JpegInfo)
 {
 	return;
@@ -240,16 +232,12 @@ fill_input_buffer (j_decompress_ptr cinfo)
 	nbytes = iread(src->buffer, 1, INPUT_BUF_SIZE);
 
 	if (nbytes <= 0) {
-		if (src->start_of_file) {  // Treat empty input file as fatal error
-			//ERREXIT(cinfo, JERR_INPUT_EMPTY);
-			jpgErrorOccured = IL_TRUE;
+		// Nobody needs the end of the file when the whole image has been read.
+		if (cinfo->output_height != 0 && cinfo->output_scanline >= cinfo->output_height) {
+			iRestoreErrors(&Errors);
+			return (boolean)IL_FALSE;
 		}
-		//WARNMS(cinfo, JWRN_JPEG_EOF);
-		// Insert a fake EOI marker
-		src->buffer[0] = (JOCTET) 0xFF;
-		src->buffer[1] = (JOCTET) JPEG_EOI;
-		nbytes = 2;
-		return (boolean)IL_FALSE;
+		ERREXIT(cinfo, JERR_INPUT_EOF);
 	}
 	if (nbytes < INPUT_BUF_SIZE) {
 		iRestoreErrors(&Errors);  // Gets rid of the IL_FILE_READ_ERROR.
@@ -271,7 +259,10 @@ skip_input_data (j_decompress_ptr cinfo, long num_bytes)
 	if (num_bytes > 0) {
 		while (num_bytes > (long) src->pub.bytes_in_buffer) {
 			num_bytes -= (long) src->pub.bytes_in_buffer;
-			(void) fill_input_buffer(cinfo);
+			if (!fill_input_buffer(cinfo)) {
+				src->pub.bytes_in_buffer = 0;
+				return;
+			}
 		}
 		src->pub.next_input_byte += (size_t) num_bytes;
 		src->pub.bytes_in_buffer -= (size_t) num_bytes;
@@ -320,6 +311,13 @@ static void iJpegErrorExit( j_common_ptr cinfo )
 	longjmp( JpegJumpBuffer, 1 );
 }
 
+// Used while an image is compressed with a structure that belongs to the caller.
+static void iJpegStructErrorExit( j_common_ptr cinfo )
+{
+	ilSetError( IL_LIB_JPEG_ERROR );
+	longjmp( JpegJumpBuffer, 1 );
+}
+
 // Internal function used to load the jpeg.
 ILboolean iLoadJpegInternal()
 {
@@ -487,7 +485,6 @@ ILboolean iSaveJpegInternal()
 	struct		jpeg_error_mgr Error;
 	JSAMPROW	row_pointer[1];
 	ILimage		*TempImage;
-	ILubyte		*TempData;
 	ILenum		Type = 0;
 
 	if (iCurImage == NULL) {
@@ -500,30 +497,20 @@ ILboolean iSaveJpegInternal()
 	else
 		Quality = 99;*/
 
-	if ((iCurImage->Format != IL_RGB && iCurImage->Format != IL_LUMINANCE) || iCurImage->Bpc != 1) {
-		TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL) {
-			return IL_FALSE;
-		}
-	}
-	else {
-		TempImage = iCurImage;
-	}
+	// Only grey images of bytes are not saved in colour.
+	TempImage = iGetSaveImage(iCurImage, iCurImage->Format == IL_LUMINANCE && iCurImage->Bpc == 1 ? IL_LUMINANCE : IL_RGB,
+		IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL)
+		return IL_FALSE;
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
-		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			if (TempImage != iCurImage)
-				ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
-	}
-	else {
-		TempData = TempImage->Data;
+	JpegInfo.err = jpeg_std_error(&Error);
+	Error.error_exit = iJpegErrorExit;  // The default one ends the program.
+	Error.output_message = OutputMsg;
+	if (setjmp(JpegJumpBuffer) != 0) {
+		ilCloseImage(TempImage);
+		return IL_FALSE;
 	}
 
-
-	JpegInfo.err = jpeg_std_error(&Error);
 	// Now we can initialize the JPEG compression object.
 	jpeg_create_compress(&JpegInfo);
 
@@ -571,7 +558,7 @@ ILboolean iSaveJpegInternal()
 		// jpeg_write_scanlines expects an array of pointers to scanlines.
 		// Here the array is only one element long, but you could pass
 		// more than one scanline at a time if that's more convenient.
-		row_pointer[0] = &TempData[JpegInfo.next_scanline * TempImage->Bps];
+		row_pointer[0] = &TempImage->Data[JpegInfo.next_scanline * TempImage->Bps];
 		(void) jpeg_write_scanlines(&JpegInfo, row_pointer, 1);
 	}
 
@@ -583,10 +570,7 @@ ILboolean iSaveJpegInternal()
 	// This is an important step since it will release a good deal of memory.
 	jpeg_destroy_compress(&JpegInfo);
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
-		ifree(TempData);
-	if (TempImage != iCurImage)
-		ilCloseImage(TempImage);
+	ilCloseImage(TempImage);
 
 	return IL_TRUE;
 }
@@ -868,9 +852,6 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 	ILuint	Returned;
 	j_decompress_ptr JpegInfo = (j_decompress_ptr)_JpegInfo;
 
-	//added on 2003-08-31 as explained in sf bug 596793
-	jpgErrorOccured = IL_FALSE;
-
 	// sam. errorHandler = JpegInfo->err->error_exit;
 	// sam. JpegInfo->err->error_exit = ExitErrorHandle;
 	jpeg_start_decompress((j_decompress_ptr)JpegInfo);
@@ -900,15 +881,14 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 	while (JpegInfo->output_scanline < JpegInfo->output_height) {
 		Returned = jpeg_read_scanlines(JpegInfo, TempPtr, 1);  // anyway to make it read all at once?
 		TempPtr[0] += iCurImage->Bps;
-		if (Returned == 0)
-			break;
+		if (Returned == 0) {  // The source has no more data.
+			ilSetError(IL_LIB_JPEG_ERROR);
+			return IL_FALSE;
+		}
 	}
 
 	// sam. JpegInfo->err->error_exit = errorHandler;
 
-	if (jpgErrorOccured)
-		return IL_FALSE;
-
 	return ilFixImage();
 #endif
 #endif
@@ -933,7 +913,6 @@ ILboolean ilSaveFromJpegStruct(void *_JpegInfo)
 	void (*errorHandler)(j_common_ptr);
 	JSAMPROW	row_pointer[1];
 	ILimage		*TempImage;
-	ILubyte		*TempData;
 	j_compress_ptr JpegInfo = (j_compress_ptr)_JpegInfo;
 
 	if (iCurImage == NULL) {
@@ -941,34 +920,19 @@ ILboolean ilSaveFromJpegStruct(void *_JpegInfo)
 		return IL_FALSE;
 	}
 
-	//added on 2003-08-31 as explained in SF bug 596793
-	jpgErrorOccured = IL_FALSE;
+	TempImage = iGetSaveImage(iCurImage, iCurImage->Format == IL_LUMINANCE && iCurImage->Bpc == 1 ? IL_LUMINANCE : IL_RGB,
+		IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL)
+		return IL_FALSE;
 
+	// The handler of the caller does not know about our image.
 	errorHandler = JpegInfo->err->error_exit;
-	JpegInfo->err->error_exit = ExitErrorHandle;
-
-
-	if ((iCurImage->Format != IL_RGB && iCurImage->Format != IL_LUMINANCE) || iCurImage->Bpc != 1) {
-		TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL) {
-			return IL_FALSE;
-		}
-	}
-	else {
-		TempImage = iCurImage;
-	}
-
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
-		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			if (TempImage != iCurImage)
-				ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
-	}
-	else {
-		TempData = TempImage->Data;
+	if (setjmp(JpegJumpBuffer) != 0) {
+		JpegInfo->err->error_exit = errorHandler;
+		ilCloseImage(TempImage);
+		return IL_FALSE;
 	}
+	JpegInfo->err->error_exit = iJpegStructErrorExit;
 
 	JpegInfo->image_width = TempImage->Width;  // image width and height, in pixels
 	JpegInfo->image_height = TempImage->Height;
@@ -982,16 +946,14 @@ ILboolean ilSaveFromJpegStruct(void *_JpegInfo)
 		// jpeg_write_scanlines expects an array of pointers to scanlines.
 		// Here the array is only one element long, but you could pass
 		// more than one scanline at a time if that's more convenient.
-		row_pointer[0] = &TempData[JpegInfo->next_scanline * TempImage->Bps];
+		row_pointer[0] = &TempImage->Data[JpegInfo->next_scanline * TempImage->Bps];
 		(void) jpeg_write_scanlines(JpegInfo, row_pointer, 1);
 	}
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
-		ifree(TempData);
-	if (TempImage != iCurImage)
-		ilCloseImage(TempImage);
+	JpegInfo->err->error_exit = errorHandler;
+	ilCloseImage(TempImage);
 
-	return (!jpgErrorOccured);
+	return IL_TRUE;
 #endif//IL_USE_IJL
 #endif//IL_NO_JPG
 	return IL_FALSE;
-- 
2.43.0


From 4121fb97d9172692684a40d13397812f598a5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 115/185] fix: TIFF: grey images were labelled as RGB, alpha as
 premultiplied, images of more than 8 bits with alpha or floats did not load
 back, strings leaked

---
 DevIL/src-IL/src/il_tiff.cpp | 168 +++++++++++++++++++++--------------
 1 file changed, 99 insertions(+), 69 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 1d34a67..e4348cb 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -251,6 +251,26 @@ ILboolean iLoadTiffInternal (TIFF* tif, ILimage* Image)
 ////
 
 
+// Returns the type of samples of that many bits or 0 if there is none.
+static ILenum iTiffSampleType(uint16 Bits, uint16 SampleFormat)
+{
+	switch (Bits)
+	{
+		case 8:
+			return SampleFormat == SAMPLEFORMAT_INT ? IL_BYTE : IL_UNSIGNED_BYTE;
+		case 16:
+			return SampleFormat == SAMPLEFORMAT_INT ? IL_SHORT : IL_UNSIGNED_SHORT;
+		case 32:
+			if (SampleFormat == SAMPLEFORMAT_IEEEFP)
+				return IL_FLOAT;
+			return SampleFormat == SAMPLEFORMAT_INT ? IL_INT : IL_UNSIGNED_INT;
+		case 64:
+			return SampleFormat == SAMPLEFORMAT_IEEEFP ? IL_DOUBLE : 0;
+	}
+	return 0;
+}
+
+
 // Prepares the current image for the first page or appends an image to Image for a further one.
 static ILimage *iTiffNewPage(ILimage *Image, ILuint Width, ILuint Height, ILubyte Bpp, ILenum Format, ILenum Type)
 {
@@ -270,8 +290,9 @@ ILboolean iLoadTiffInternal()
 {
 	TIFF	 *tif;
 	uint16	 photometric, planarconfig, orientation;
-	uint16	 samplesperpixel, bitspersample, *sampleinfo, extrasamples;
+	uint16	 samplesperpixel, bitspersample, *sampleinfo, extrasamples, sampleformat;
 	uint32	 w, h, d, linesize;
+	ILenum	 SampleType;
 	ILubyte  *pImageData;
 	ILuint	 i, ProfileLen, DirCount = 0;
 	void	 *Buffer;
@@ -328,6 +349,7 @@ ILboolean iLoadTiffInternal()
 		w = h = 0;
 		samplesperpixel = bitspersample = 1;
 		extrasamples = 0;
+		sampleformat = SAMPLEFORMAT_UINT;
 		sampleinfo = NULL;
 		orientation = ORIENTATION_TOPLEFT;
 		photometric = PHOTOMETRIC_MINISBLACK;
@@ -345,7 +367,9 @@ ILboolean iLoadTiffInternal()
 		TIFFGetFieldDefaulted(tif, TIFFTAG_SAMPLESPERPIXEL, &samplesperpixel);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_BITSPERSAMPLE,	&bitspersample);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_EXTRASAMPLES,	&extrasamples, &sampleinfo);
+		TIFFGetFieldDefaulted(tif, TIFFTAG_SAMPLEFORMAT,	&sampleformat);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_ORIENTATION, 	&orientation);
+		SampleType = iTiffSampleType(bitspersample, sampleformat);
 
 		linesize = (uint32)TIFFScanlineSize(tif);
 		
@@ -381,7 +405,9 @@ ILboolean iLoadTiffInternal()
 
 			//TODO: 1 bit/pixel images should not be stored as 8 bits...
 			//(-> add new format)
-			Image = iTiffNewPage(Image, w, h, 1, IL_LUMINANCE, bitspersample == 16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE);
+			if (bitspersample == 1 || photometric == PHOTOMETRIC_PALETTE)
+				SampleType = IL_UNSIGNED_BYTE;
+			Image = iTiffNewPage(Image, w, h, 1, IL_LUMINANCE, SampleType);
 			if (Image == NULL) {
 				TIFFClose(tif);
 				return IL_FALSE;
@@ -521,11 +547,12 @@ ILboolean iLoadTiffInternal()
 			else if(orientation == ORIENTATION_BOTLEFT)
 				Image->Origin = IL_ORIGIN_LOWER_LEFT;
 		}
-		//for 16bit rgb images:
-		else if (extrasamples == 0
-			&& samplesperpixel == 3
-			&& (bitspersample == 8 || bitspersample == 16)
-			&& photometric == PHOTOMETRIC_RGB
+		//for images with alpha values and ones with more than 8 bits:
+		else if (SampleType != 0
+			&& ((photometric == PHOTOMETRIC_RGB && ((samplesperpixel == 3 && extrasamples == 0) ||
+					(samplesperpixel == 4 && extrasamples <= 1)))
+				|| (photometric == PHOTOMETRIC_MINISBLACK && ((samplesperpixel == 1 && extrasamples == 0) ||
+					(samplesperpixel == 2 && extrasamples <= 1))))
 			&& planarconfig == 1
 			&& (orientation == ORIENTATION_TOPLEFT || orientation == ORIENTATION_BOTLEFT)
 			&& !TIFFIsTiled(tif)
@@ -535,7 +562,7 @@ ILboolean iLoadTiffInternal()
 			ILuint y;
 			uint32 rowsperstrip, j, linesread;
 
-			Image = iTiffNewPage(Image, w, h, 3, IL_RGB, bitspersample == 16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE);
+			Image = iTiffNewPage(Image, w, h, (ILubyte)samplesperpixel, ilGetFormatBpp((ILubyte)samplesperpixel), SampleType);
 			if (Image == NULL) {
 				TIFFClose(tif);
 				return IL_FALSE;
@@ -953,17 +980,15 @@ ILuint ilSaveTiffL(void *Lump, ILuint Size)
 // Internal function used to save the Tiff.
 ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 {
-	ILenum	Format;
+	ILenum	Format, Type;
 	ILenum	Compression;
 	ILuint	ixLine;
 	TIFF	*File;
-	char	Description[512];
 	ILimage *TempImage;
-	const char	*str;
-	ILboolean SwapColors;
-	ILubyte *OldData;
+	char	*str;
+	uint16	ExtraSample, SampleFormat;
 
-	if(iCurImage == NULL) {
+	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -981,20 +1006,52 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	else
 		Compression = COMPRESSION_NONE;
 
-	if (iCurImage->Format == IL_COLOUR_INDEX) {
-		if (ilGetBppPal(iCurImage->Pal.PalType) == 4)  // Preserve the alpha.
-			TempImage = iConvertImage(iCurImage, IL_RGBA, IL_UNSIGNED_BYTE);
-		else
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
-		
-		if (TempImage == NULL) {
-			return IL_FALSE;
-		}
+	switch (iCurImage->Format)
+	{
+		case IL_COLOUR_INDEX:
+			if (ilGetBppPal(iCurImage->Pal.PalType) == 4)  // Preserve the alpha.
+				Format = IL_RGBA;
+			else
+				Format = IL_RGB;
+			break;
+		case IL_BGR:
+			Format = IL_RGB;
+			break;
+		case IL_BGRA:
+		case IL_ALPHA:
+			Format = IL_RGBA;
+			break;
+		default:
+			Format = iCurImage->Format;
 	}
-	else {
-		TempImage = iCurImage;
+
+	Type = iCurImage->Format == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : iCurImage->Type;
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_SHORT:
+		case IL_INT:
+			SampleFormat = SAMPLEFORMAT_INT;
+			break;
+		case IL_HALF:
+			Type = IL_FLOAT;
+			SampleFormat = SAMPLEFORMAT_IEEEFP;
+			break;
+		case IL_FLOAT:
+		case IL_DOUBLE:
+			SampleFormat = SAMPLEFORMAT_IEEEFP;
+			break;
+		default:
+			SampleFormat = SAMPLEFORMAT_UINT;
 	}
 
+	// 24/4/2003
+	// Orientation flag is not always supported (Photoshop, ...), orient the image data
+	// and set it always to normal view
+	TempImage = iGetSaveImage(iCurImage, Format, Type, IL_ORIGIN_UPPER_LEFT);
+	if (TempImage == NULL)
+		return IL_FALSE;
+
 	/*#ifndef _UNICODE
 		File = TIFFOpen(Filename, "w");
 	#else
@@ -1004,24 +1061,23 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	// Control writing functions ourself.
 	File = iTIFFOpen((char*)"w");
 	if (File == NULL) {
+		ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-#ifdef _UNICODE
-	sprintf(Description, "Tiff generated by %Ls", ilGetString(IL_VERSION_NUM));
-#else// _UNICODE
-	sprintf(Description, "Tiff generated by %s", ilGetString(IL_VERSION_NUM));
-#endif// _UNICODE
-
 	TIFFSetField(File, TIFFTAG_IMAGEWIDTH, TempImage->Width);
 	TIFFSetField(File, TIFFTAG_IMAGELENGTH, TempImage->Height);
 	TIFFSetField(File, TIFFTAG_COMPRESSION, Compression);
-	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB);
+	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, TempImage->Bpp >= 3 ? PHOTOMETRIC_RGB : PHOTOMETRIC_MINISBLACK);
 	TIFFSetField(File, TIFFTAG_BITSPERSAMPLE, TempImage->Bpc << 3);
 	TIFFSetField(File, TIFFTAG_SAMPLESPERPIXEL, TempImage->Bpp);
-	if (TempImage->Bpp == 4) //TODO: LUMINANCE, LUMINANCE_ALPHA
-		TIFFSetField(File, TIFFTAG_MATTEING, 1);
+	TIFFSetField(File, TIFFTAG_SAMPLEFORMAT, SampleFormat);
+	if (TempImage->Bpp == 2 || TempImage->Bpp == 4) {
+		// The colours are not multiplied by the alpha values.
+		ExtraSample = EXTRASAMPLE_UNASSALPHA;
+		TIFFSetField(File, TIFFTAG_EXTRASAMPLES, 1, &ExtraSample);
+	}
 	TIFFSetField(File, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
 	TIFFSetField(File, TIFFTAG_ROWSPERSTRIP, 1);
 	TIFFSetField(File, TIFFTAG_SOFTWARE, ilGetString(IL_VERSION_NUM));  //@TODO: Will probably not work properly under Windows if Unicode
@@ -1037,7 +1093,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 
 
 	str = iGetString(IL_TIF_AUTHNAME_STRING);
-	if (iGetString(IL_TIF_AUTHNAME_STRING)) {
+	if (str) {
 		TIFFSetField(File, TIFFTAG_ARTIST, str);
 		ifree(str);
 	}
@@ -1048,7 +1104,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 		ifree(str);
 	}
 
-	str = iGetString(IL_TIF_HOSTCOMPUTER_STRING);
+	str = iGetString(IL_TIF_DESCRIPTION_STRING);
 	if (str) {
 		TIFFSetField(File, TIFFTAG_IMAGEDESCRIPTION, str);
 		ifree(str);
@@ -1057,55 +1113,29 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	// Set the date and time string.
 	TIFFSetField(File, TIFFTAG_DATETIME, iMakeString());
 
-	// 24/4/2003
-	// Orientation flag is not always supported (Photoshop, ...), orient the image data 
-	// and set it always to normal view
 	TIFFSetField(File, TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
-	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		ILubyte* Data = iGetFlipped(TempImage);
-		OldData = TempImage->Data;
-		TempImage->Data = Data;
-	}
-	else
-		OldData = TempImage->Data;
-
 	/*
 	 TIFFSetField(File, TIFFTAG_ORIENTATION,
 				  TempImage->Origin == IL_ORIGIN_UPPER_LEFT ? ORIENTATION_TOPLEFT : ORIENTATION_BOTLEFT);
 	 */
 
-	Format = TempImage->Format;
-	SwapColors = (Format == IL_BGR || Format == IL_BGRA);
-	if (SwapColors)
- 		ilSwapColours();
-
 	for (ixLine = 0; ixLine < TempImage->Height; ++ixLine) {
 		if (TIFFWriteScanline(File, TempImage->Data + ixLine * TempImage->Bps, ixLine, 0) < 0) {
 			TIFFClose(File);
 			ilSetError(IL_LIB_TIFF_ERROR);
-			if (SwapColors)
-				ilSwapColours();
-			if (TempImage->Data != OldData) {
-				ifree( TempImage->Data );
-				TempImage->Data = OldData;
-			}
-			if (TempImage != iCurImage)
-				ilCloseImage(TempImage);
+			ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
 
-	if (SwapColors)
- 		ilSwapColours();
+	ilCloseImage(TempImage);
 
-	if (TempImage->Data != OldData) {
-		ifree(TempImage->Data);
-		TempImage->Data = OldData;
+	// TIFFClose() does not tell whether the directory could be written.
+	if (!TIFFFlush(File)) {
+		TIFFClose(File);
+		ilSetError(IL_LIB_TIFF_ERROR);
+		return IL_FALSE;
 	}
-
-	if (TempImage != iCurImage)
-		ilCloseImage(TempImage);
-
 	TIFFClose(File);
 
 	return IL_TRUE;
-- 
2.43.0


From 6c6304627c8ee70f9d816a7ef1b6ae9096ddf56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 116/185] fix: the size query returned a size for images that
 cannot be saved

---
 DevIL/src-IL/src/il_size.cpp | 37 +++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 103a0ec..c44ffcb 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -78,6 +78,8 @@ ILint ILAPIENTRY iSizeWrite(const void *Buffer, ILuint Size, ILuint Number)
 //  A return value of 0 is an error.
 ILuint ilDetermineSize(ILenum Type)
 {
+	ILuint Ret;
+
 	MaxPos = CurPos = 0;
 	iSetOutputFake();  // Sets iputc, iwrite, etc. to functions above.
 
@@ -85,97 +87,97 @@ ILuint ilDetermineSize(ILenum Type)
 	{
 		#ifndef IL_NO_BMP
 		case IL_BMP:
-			ilSaveBmpL(NULL, 0);
+			Ret = ilSaveBmpL(NULL, 0);
 			break;
 		#endif//IL_NO_BMP
 
 		#ifndef IL_NO_DDS
 		case IL_DDS:
-			ilSaveDdsL(NULL, 0);
+			Ret = ilSaveDdsL(NULL, 0);
 			break;
 		#endif//IL_NO_DDS
 
 		#ifndef IL_NO_EXR
 		case IL_EXR:
-			ilSaveExrL(NULL, 0);
+			Ret = ilSaveExrL(NULL, 0);
 			break;
 		#endif//IL_NO_EXR
 
 		#ifndef IL_NO_HDR
 		case IL_HDR:
-			ilSaveHdrL(NULL, 0);
+			Ret = ilSaveHdrL(NULL, 0);
 			break;
 		#endif//IL_NO_HDR
 
 		#ifndef IL_NO_JP2
 		case IL_JP2:
-			ilSaveJp2L(NULL, 0);
+			Ret = ilSaveJp2L(NULL, 0);
 			break;
 		#endif//IL_NO_JP2
 
 		#ifndef IL_NO_JPG
 		case IL_JPG:
-			ilSaveJpegL(NULL, 0);
+			Ret = ilSaveJpegL(NULL, 0);
 			break;
 		#endif//IL_NO_JPG
 
 		#ifndef IL_NO_PCX
 		case IL_PCX:
-			ilSavePcxL(NULL, 0);
+			Ret = ilSavePcxL(NULL, 0);
 			break;
 		#endif//IL_NO_PCX
 
 		#ifndef IL_NO_PNG
 		case IL_PNG:
-			ilSavePngL(NULL, 0);
+			Ret = ilSavePngL(NULL, 0);
 			break;
 		#endif//IL_NO_PNG
 
 		#ifndef IL_NO_PNM
 		case IL_PNM:
-			ilSavePnmL(NULL, 0);
+			Ret = ilSavePnmL(NULL, 0);
 			break;
 		#endif//IL_NO_PNM
 
 		#ifndef IL_NO_PSD
 		case IL_PSD:
-			ilSavePsdL(NULL, 0);
+			Ret = ilSavePsdL(NULL, 0);
 			break;
 		#endif//IL_NO_PSD
 
 		#ifndef IL_NO_RAW
 		case IL_RAW:
-			ilSaveRawL(NULL, 0);
+			Ret = ilSaveRawL(NULL, 0);
 			break;
 		#endif//IL_NO_RAW
 
 		#ifndef IL_NO_SGI
 		case IL_SGI:
-			ilSaveSgiL(NULL, 0);
+			Ret = ilSaveSgiL(NULL, 0);
 			break;
 		#endif//IL_NO_SGI
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			ilSaveTargaL(NULL, 0);
+			Ret = ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
 		#ifndef IL_NO_TIF
 		case IL_TIF:
-			ilSaveTiffL(NULL, 0);
+			Ret = ilSaveTiffL(NULL, 0);
 			break;
 		#endif//IL_NO_TIF
 
 		#ifndef IL_NO_VTF
 		case IL_VTF:
-			ilSaveVtfL(NULL, 0);
+			Ret = ilSaveVtfL(NULL, 0);
 			break;
 		#endif//IL_NO_VTF
 
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
-			ilSaveWbmpL(NULL, 0);
+			Ret = ilSaveWbmpL(NULL, 0);
 			break;
 		#endif//IL_NO_WBMP
 
@@ -185,5 +187,6 @@ ILuint ilDetermineSize(ILenum Type)
 			return 0;
 	}
 
-	return MaxPos;
+	// There is no size for an image that cannot be saved.
+	return Ret == 0 ? 0 : MaxPos;
 }
-- 
2.43.0


From 7e19d6cf6597203d970fa19dc664d5bad0160f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 117/185] fix: DXT: compressed data went to the file being
 written instead of the caller, ATI1N/3DC/RXGB blocks of partial sizes read
 beyond the image, blocks of equally bright colours lost one, sizes of mipmaps
 and volumes were wrong

---
 DevIL/src-IL/include/il_dds.h    |   2 +-
 DevIL/src-IL/src/il_dds-save.cpp | 528 +++++++++++++++++++------------
 DevIL/src-IL/src/il_dds.cpp      | 151 +++++----
 DevIL/src-IL/src/il_squish.cpp   |   2 +-
 4 files changed, 411 insertions(+), 272 deletions(-)

diff --git a/DevIL/src-IL/include/il_dds.h b/DevIL/src-IL/include/il_dds.h
index a31962c..62c2dd0 100644
--- a/DevIL/src-IL/include/il_dds.h
+++ b/DevIL/src-IL/include/il_dds.h
@@ -353,7 +353,7 @@ ILboolean	iSaveDdsInternal(void);
 ILboolean	WriteHeader(ILimage *Image, ILenum DXTCFormat, ILuint CubeFlags);
 ILushort	*CompressTo565(ILimage *Image);
 ILubyte		*CompressTo88(ILimage *Image);
-ILuint		Compress(ILimage *Image, ILenum DXTCFormat);
+ILuint		Compress(ILimage *Image, ILenum DXTCFormat, ILubyte *Out);
 ILboolean	GetBlock(ILushort *Block, ILushort *Data, ILimage *Image, ILuint XPos, ILuint YPos);
 ILboolean	GetAlphaBlock(ILubyte *Block, ILubyte *Data, ILimage *Image, ILuint XPos, ILuint YPos);
 ILboolean	Get3DcBlock(ILubyte *Block, ILubyte *Data, ILimage *Image, ILuint XPos, ILuint YPos, int channel);
diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index f17862f..381176d 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -15,6 +15,8 @@
 #include "il_dds.h"
 #include <limits.h>
 
+static ILubyte	*iGetDXTCBlocks(ILimage *Image, ILenum DXTCFormat, ILuint *Size);
+
 
 #ifndef IL_NO_DDS
 
@@ -70,65 +72,99 @@ ILuint ilSaveDdsL(void *Lump, ILuint Size)
 }
 
 
+//! Number of mipmaps that follow an image and have the sizes that a chain of mipmaps has.
+static ILuint iDdsMipCount(ILimage *Image)
+{
+	ILuint	Count = 0;
+	ILimage	*Last = Image, *Mip;
+
+	for (Mip = Image->Mipmaps; Mip != NULL; Last = Mip, Mip = Mip->Mipmaps, Count++) {
+		if (Last->Width == 1 && Last->Height == 1 && Last->Depth == 1)
+			break;
+		if (Mip->Width != IL_MAX(Last->Width / 2, 1) || Mip->Height != IL_MAX(Last->Height / 2, 1)
+			|| Mip->Depth != IL_MAX(Last->Depth / 2, 1))
+			break;
+	}
+
+	return Count;
+}
+
+
 //! Checks if an image is a cubemap
-ILuint GetCubemapInfo(ILimage* image, ILint* faces)
+ILuint GetCubemapInfo(ILimage* image, ILimage** faces)
 {
-	ILint	indices[] = { -1, -1, -1,  -1, -1, -1 }, i;
+	ILint	i;
 	ILimage	*img;
-	ILuint	ret = 0, srcMipmapCount, srcImagesCount, mipmapCount;
+	ILuint	ret = 0, index;
 
 	if (image == NULL)
 		return 0;
 
-	iGetIntegervImage(image, IL_NUM_IMAGES, (ILint*) &srcImagesCount);
-	if (srcImagesCount != 5) //write only complete cubemaps (TODO?)
-		return 0;
+	for (i = 0; i < 6; ++i)
+		faces[i] = NULL;
 
-	img = image;
-	iGetIntegervImage(image, IL_NUM_MIPMAPS, (ILint*) &srcMipmapCount);
-	mipmapCount = srcMipmapCount;
+	// Write only complete cubemaps. (TODO?)
+	for (i = 0, img = image; img != NULL; ++i, img = img->Faces) {
+		if (i == 6)
+			return 0;
 
-	for (i = 0; i < 6; ++i) {
 		switch (img->CubeFlags)
 		{
 			case DDS_CUBEMAP_POSITIVEX:
-				indices[i] = 0;
+				index = 0;
 				break;
 			case DDS_CUBEMAP_NEGATIVEX:
-				indices[i] = 1;
+				index = 1;
 				break;
 			case DDS_CUBEMAP_POSITIVEY:
-				indices[i] = 2;
+				index = 2;
 				break;
 			case DDS_CUBEMAP_NEGATIVEY:
-				indices[i] = 3;
+				index = 3;
 				break;
 			case DDS_CUBEMAP_POSITIVEZ:
-				indices[i] = 4;
+				index = 4;
 				break;
 			case DDS_CUBEMAP_NEGATIVEZ:
-				indices[i] = 5;
+				index = 5;
 				break;
+			default:
+				return 0;
 		}
-        iGetIntegervImage(img, IL_NUM_MIPMAPS, (ILint*) &srcMipmapCount);
-		if (srcMipmapCount != mipmapCount)
-			return 0; //equal # of mipmaps required
+		if (faces[index] != NULL)
+			return 0; //the same face twice
+
+		// The faces have to have the same size and number of mipmaps.
+		if (img->Width != image->Width || img->Height != image->Height || img->Depth != image->Depth
+			|| iDdsMipCount(img) != iDdsMipCount(image))
+			return 0;
 
 		ret |= img->CubeFlags;
-		img = img->Next;
+		faces[index] = img;
 	}
 
 	for (i = 0; i < 6; ++i)
-		if (indices[i] == -1)
+		if (faces[i] == NULL)
 			return 0; //one face not found
 
-	if (ret != 0) //should always be true
-		ret |= DDS_CUBEMAP;
+	return ret | DDS_CUBEMAP;
+}
 
-	for (i = 0; i < 6; ++i)
-		faces[indices[i]] = i;
 
-	return ret;
+// Compresses an image and writes it.
+static ILboolean iWriteDxtc(ILimage *Image, ILenum DXTCFormat)
+{
+	ILuint		Size;
+	ILubyte		*Data;
+	ILboolean	bRet;
+
+	Data = iGetDXTCBlocks(Image, DXTCFormat, &Size);
+	if (Data == NULL)
+		return IL_FALSE;
+	bRet = iwrite(Data, 1, Size) == Size;
+	ifree(Data);
+
+	return bRet;
 }
 
 
@@ -136,48 +172,43 @@ ILuint GetCubemapInfo(ILimage* image, ILint* faces)
 ILboolean iSaveDdsInternal()
 {
 	ILenum	DXTCFormat;
-	ILuint	counter, numMipMaps, image, numFaces, i;
-	ILubyte	*CurData = NULL;
-	ILint	CubeTable[6] = { 0 };
+	ILuint	counter, numMipMaps, numFaces, i;
+	ILimage	*CubeTable[6], *Level;
 	ILuint	CubeFlags;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	CubeFlags = GetCubemapInfo(iCurImage, CubeTable);
+	if (CubeFlags == 0)
+		CubeTable[0] = iCurImage;
 
-	image = ilGetInteger(IL_CUR_IMAGE);
+	// @TODO:  Fix the pre-multiplied alpha problem.
 	DXTCFormat = iGetInt(IL_DXTC_FORMAT);
-	WriteHeader(iCurImage, DXTCFormat, CubeFlags);
+	if (DXTCFormat == IL_DXT2)
+		DXTCFormat = IL_DXT3;
+	else if (DXTCFormat == IL_DXT4)
+		DXTCFormat = IL_DXT5;
+
+	if (!WriteHeader(iCurImage, DXTCFormat, CubeFlags))
+		return IL_FALSE;
 
 	if (CubeFlags != 0)
-		numFaces = ilGetInteger(IL_NUM_FACES); // Should always be 5 for now
+		numFaces = 5;
 	else
 		numFaces = 0;
 
-	numMipMaps = ilGetInteger(IL_NUM_MIPMAPS); //this assumes all faces have same # of mipmaps
+	numMipMaps = iDdsMipCount(iCurImage); //this assumes all faces have same # of mipmaps
 
 	for (i = 0; i <= numFaces; ++i) {
+		Level = CubeTable[i];
 		for (counter = 0; counter <= numMipMaps; counter++) {
-			ilBindImage(image);
-			ilActiveImage(CubeTable[i]);
-			ilActiveMipmap(counter);
-
-			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-				CurData = iCurImage->Data;
-				iCurImage->Data = iGetFlipped(iCurImage);
-				if (iCurImage->Data == NULL) {
-					iCurImage->Data = CurData;
-					return IL_FALSE;
-				}
-			}
-
-			if (!Compress(iCurImage, DXTCFormat))
+			if (!iWriteDxtc(Level, DXTCFormat))
 				return IL_FALSE;
-
-			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-				ifree(iCurImage->Data);
-				iCurImage->Data = CurData;
-			}
+			Level = Level->Mipmaps;
 		}
-
 	}
 
 	return IL_TRUE;
@@ -197,12 +228,6 @@ ILboolean WriteHeader(ILimage *Image, ILenum DXTCFormat, ILuint CubeFlags)
 	if (Image->Depth > 1)
 		Flags1 |= DDS_DEPTH;
 
-	// @TODO:  Fix the pre-multiplied alpha problem.
-	if (DXTCFormat == IL_DXT2)
-		DXTCFormat = IL_DXT3;
-	else if (DXTCFormat == IL_DXT4)
-		DXTCFormat = IL_DXT5;
-
 	switch (DXTCFormat)
 	{
 		case IL_DXT1:
@@ -266,12 +291,13 @@ ILboolean WriteHeader(ILimage *Image, ILenum DXTCFormat, ILuint CubeFlags)
 
 	if (Image->Depth > 1) {
 		SaveLittleUInt(Image->Depth);			// Depth
+		ddsCaps1 |= DDS_COMPLEX;
 		ddsCaps2 |= DDS_VOLUME;
 	}
 	else
 		SaveLittleUInt(0);						// Depth
 
-	SaveLittleUInt(ilGetInteger(IL_NUM_MIPMAPS) + 1);  // MipMapCount
+	SaveLittleUInt(iDdsMipCount(Image) + 1);  // MipMapCount
 	SaveLittleUInt(0);			// AlphaBitDepth
 
 	for (i = 0; i < 10; i++)
@@ -289,7 +315,7 @@ ILboolean WriteHeader(ILimage *Image, ILenum DXTCFormat, ILuint CubeFlags)
 	//changed 20040516: set mipmap flag on mipmap images
 	//(non-compressed .dds files still not supported,
 	//though)
-	if (ilGetInteger(IL_NUM_MIPMAPS) > 0)
+	if (iDdsMipCount(Image) > 0)
 		ddsCaps1 |= DDS_MIPMAP | DDS_COMPLEX;
 	if (CubeFlags != 0) {
 		ddsCaps1 |= DDS_COMPLEX;
@@ -309,31 +335,85 @@ ILboolean WriteHeader(ILimage *Image, ILenum DXTCFormat, ILuint CubeFlags)
 #endif//IL_NO_DDS
 
 
+// Number of bytes that an image has when it is compressed, 0 if this is not possible.
+static ILuint iGetDXTCSize(ILimage *Image, ILenum DXTCFormat)
+{
+	ILuint64 BlockNum, Size;
+
+	BlockNum = ((ILuint64)Image->Width + 3)/4 * (((ILuint64)Image->Height + 3)/4) * Image->Depth;
+
+	switch (DXTCFormat)
+	{
+		case IL_DXT1:
+		case IL_DXT1A:
+		case IL_ATI1N:
+			Size = BlockNum * 8;
+			break;
+		case IL_DXT3:
+		case IL_DXT5:
+		case IL_3DC:
+		case IL_RXGB:
+			Size = BlockNum * 16;
+			break;
+		default:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
+			return 0;
+	}
+
+	if (Size == 0 || Size > 0x7FFFFFFF) {
+		ilSetError(IL_INVALID_PARAM);
+		return 0;
+	}
+
+	return (ILuint)Size;
+}
+
+
+// Compresses an image, upper row first, to new data.
+static ILubyte *iGetDXTCBlocks(ILimage *Image, ILenum DXTCFormat, ILuint *Size)
+{
+	ILimage	*TempImage = Image;
+	ILubyte	*Data;
+
+	*Size = iGetDXTCSize(Image, DXTCFormat);
+	if (*Size == 0)
+		return NULL;
+	if (Image->Data == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return NULL;
+	}
+
+	if (Image->Origin != IL_ORIGIN_UPPER_LEFT) {
+		TempImage = iGetSaveImage(Image, Image->Format, Image->Type, IL_ORIGIN_UPPER_LEFT);
+		if (TempImage == NULL)
+			return NULL;
+	}
+
+	Data = (ILubyte*)ialloc(*Size);
+	if (Data != NULL && Compress(TempImage, DXTCFormat, Data) != *Size) {
+		ifree(Data);
+		Data = NULL;
+	}
+
+	if (TempImage != Image)
+		ilCloseImage(TempImage);
+
+	return Data;
+}
+
+
 ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCFormat)
 {
-	ILubyte	*CurData = NULL;
-	ILuint	retVal;
-	ILint	BlockNum;
+	ILubyte	*Data;
+	ILuint	Size;
 
-	if (Buffer == NULL) {  // Return the number that will be written with a subsequent call.
-		BlockNum = ((iCurImage->Width + 3)/4) * ((iCurImage->Height + 3)/4)
-					* iCurImage->Depth;
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
 
-		switch (DXTCFormat)
-		{
-			case IL_DXT1:
-			case IL_DXT1A:
-			case IL_ATI1N:
-				return BlockNum * 8;
-			case IL_DXT3:
-			case IL_DXT5:
-			case IL_3DC:
-			case IL_RXGB:
-				return BlockNum * 16;
-			default:
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return 0;
-		}
+	if (Buffer == NULL) {  // Return the number that will be written with a subsequent call.
+		return iGetDXTCSize(iCurImage, DXTCFormat);
 	}
 
 	if (DXTCFormat == iCurImage->DxtcFormat && iCurImage->DxtcSize && iCurImage->DxtcData) {
@@ -341,25 +421,15 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 		return IL_MIN(BufferSize, iCurImage->DxtcSize);
 	}
 
-	if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		CurData = iCurImage->Data;
-		iCurImage->Data = iGetFlipped(iCurImage);
-		if (iCurImage->Data == NULL) {
-			iCurImage->Data = CurData;
-			return 0;
-		}
-	}
-
-	//@TODO: Is this the best way to do this?
-	iSetOutputLump(Buffer, BufferSize);
-	retVal = Compress(iCurImage, DXTCFormat);
+	Data = iGetDXTCBlocks(iCurImage, DXTCFormat, &Size);
+	if (Data == NULL)
+		return 0;
 
-	if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		ifree(iCurImage->Data);
-		iCurImage->Data = CurData;
-	}
+	Size = IL_MIN(BufferSize, Size);
+	memcpy(Buffer, Data, Size);
+	ifree(Data);
 
-	return retVal;
+	return Size;
 }
 
 
@@ -386,7 +456,7 @@ ILushort *CompressTo565(ILimage *Image)
 	ILuint		i, j;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGRA, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGRA, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return NULL;
 	}
@@ -394,7 +464,7 @@ ILushort *CompressTo565(ILimage *Image)
 		TempImage = Image;
 	}
 
-	Data = (ILushort*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+	Data = (ILushort*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
 	if (Data == NULL) {
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
@@ -460,8 +530,8 @@ ILushort *CompressTo565(ILimage *Image)
 			}
 			break;
 
-		case IL_ALPHA:
-			memset(Data, 0, iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+		default:
+			memset(Data, 0, Image->Width * Image->Height * 2 * Image->Depth);
 			break;
 	}
 
@@ -479,7 +549,7 @@ ILubyte *CompressTo88(ILimage *Image)
 	ILuint		i, j;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return NULL;
 	}
@@ -487,7 +557,7 @@ ILubyte *CompressTo88(ILimage *Image)
 		TempImage = Image;
 	}
 
-	Data = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+	Data = (ILubyte*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
 	if (Data == NULL) {
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
@@ -527,10 +597,14 @@ ILubyte *CompressTo88(ILimage *Image)
 
 		case IL_LUMINANCE:
 		case IL_LUMINANCE_ALPHA:
-			for (i = 0, j = 0; i < TempImage->SizeOfData; i++, j += 2) {
-				Data[j  ] = Data[j+1] = 0; //??? Luminance is no normal map format...
+			for (i = 0, j = 0; i < TempImage->SizeOfData; i += TempImage->Bpp, j += 2) {
+				Data[j  ] = Data[j+1] = TempImage->Data[i]; //??? Luminance is no normal map format...
 			}
 			break;
+
+		default:
+			memset(Data, 0, Image->Width * Image->Height * 2 * Image->Depth);
+			break;
 	}
 
 	if (TempImage != Image)
@@ -550,7 +624,7 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 	*r = NULL;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return;
 	}
@@ -558,9 +632,10 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 		TempImage = Image;
 	}
 
-	*xgb = (ILushort*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
-	*r = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * iCurImage->Depth);
+	*xgb = (ILushort*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
+	*r = (ILubyte*)ialloc(Image->Width * Image->Height * Image->Depth);
 	if (*xgb == NULL || *r == NULL) {
+		// The caller releases the one that could be allocated.
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
 		return;
@@ -619,6 +694,11 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 				Data[j] |=  TempImage->Data[i] >> 3;
 			}
 			break;
+
+		default:
+			memset(Data, 0, Image->Width * Image->Height * 2 * Image->Depth);
+			memset(Alpha, 0, Image->Width * Image->Height * Image->Depth);
+			break;
 	}
 
 	if (TempImage != Image)
@@ -626,14 +706,63 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 }
 
 
-ILuint Compress(ILimage *Image, ILenum DXTCFormat)
+// Gets the alpha values of an image.
+static ILubyte *iGetAlphaValues(ILimage *Image)
+{
+	ILimage	*TempImage = Image;
+	ILubyte	*Alpha;
+	ILuint	i, Num = Image->Width * Image->Height * Image->Depth;
+
+	if ((Image->Format != IL_RGBA && Image->Format != IL_BGRA)
+		|| (Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE)) {
+		TempImage = iConvertImage(Image, IL_RGBA, IL_UNSIGNED_BYTE);
+		if (TempImage == NULL)
+			return NULL;
+	}
+
+	Alpha = (ILubyte*)ialloc(Num);
+	if (Alpha != NULL) {
+		for (i = 0; i < Num; i++)
+			Alpha[i] = TempImage->Data[i * 4 + 3];
+	}
+
+	if (TempImage != Image)
+		ilCloseImage(TempImage);
+
+	return Alpha;
+}
+
+
+static ILubyte *iPutUShort(ILubyte *Out, ILushort Value)
+{
+	*Out++ = (ILubyte)Value;
+	*Out++ = (ILubyte)(Value >> 8);
+	return Out;
+}
+
+
+static ILubyte *iPutUInt(ILubyte *Out, ILuint Value)
+{
+	return iPutUShort(iPutUShort(Out, (ILushort)Value), (ILushort)(Value >> 16));
+}
+
+
+static ILubyte *iPutBytes(ILubyte *Out, const ILubyte *Values, ILuint Num)
+{
+	memcpy(Out, Values, Num);
+	return Out + Num;
+}
+
+
+// Compresses an image into the memory given, which has the size from iGetDXTCSize.
+ILuint Compress(ILimage *Image, ILenum DXTCFormat, ILubyte *Out)
 {
 	ILushort	*Data, Block[16], ex0, ex1, *Runner16, t0, t1;
 	ILuint		x, y, z, i, BitMask, DXTCSize;//, Rms1, Rms2;
 	ILubyte		*Alpha, AlphaBlock[16], AlphaBitMask[6], /*AlphaOut[16],*/ a0, a1;
 	ILboolean	HasAlpha;
 	ILuint		Count = 0;
-	ILubyte		*Data3Dc, *Runner8, *ByteData, *BlockData;
+	ILubyte		*Data3Dc, *Runner8, *BlockData;
 
 	if (DXTCFormat == IL_3DC) {
 		Data3Dc = CompressTo88(Image);
@@ -648,16 +777,16 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 					Get3DcBlock(AlphaBlock, Runner8, Image, x, y, 0);
 					ChooseAlphaEndpoints(AlphaBlock, &a0, &a1);
 					GenAlphaBitMask(a0, a1, AlphaBlock, AlphaBitMask, NULL);
-					iputc(a0);
-					iputc(a1);
-					iwrite(AlphaBitMask, 1, 6);
+					*Out++ = a0;
+					*Out++ = a1;
+					Out = iPutBytes(Out, AlphaBitMask, 6);
 
 					Get3DcBlock(AlphaBlock, Runner8, Image, x, y, 1);
 					ChooseAlphaEndpoints(AlphaBlock, &a0, &a1);
 					GenAlphaBitMask(a0, a1, AlphaBlock, AlphaBitMask, NULL);
-					iputc(a0);
-					iputc(a1);
-					iwrite(AlphaBitMask, 1, 6);
+					*Out++ = a0;
+					*Out++ = a1;
+					Out = iPutBytes(Out, AlphaBitMask, 6);
 
 					Count += 16;
 				}
@@ -671,8 +800,8 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 	{
 		ILimage *TempImage;
 
-		if (Image->Bpp != 1) {
-			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
+		if ((Image->Format != IL_LUMINANCE && Image->Format != IL_ALPHA) || (Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE)) {
+			TempImage = iConvertImage(Image, Image->Format == IL_ALPHA ? IL_ALPHA : IL_LUMINANCE, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return 0;
 		}
@@ -688,9 +817,9 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 					GetAlphaBlock(AlphaBlock, Runner8, Image, x, y);
 					ChooseAlphaEndpoints(AlphaBlock, &a0, &a1);
 					GenAlphaBitMask(a0, a1, AlphaBlock, AlphaBitMask, NULL);
-					iputc(a0);
-					iputc(a1);
-					iwrite(AlphaBitMask, 1, 6);
+					*Out++ = a0;
+					*Out++ = a1;
+					Out = iPutBytes(Out, AlphaBitMask, 6);
 					Count += 8;
 				}
 			}
@@ -706,23 +835,26 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 #ifdef IL_USE_DXTC_NVIDIA
 		if (ilIsEnabled(IL_NVIDIA_COMPRESS) && Image->Depth == 1) {  // See if we need to use the nVidia Texture Tools library.
 			if (DXTCFormat == IL_DXT1 || DXTCFormat == IL_DXT1A || DXTCFormat == IL_DXT3 || DXTCFormat == IL_DXT5) {
+				ILimage *TempImage = Image;
+
 				// NVTT needs data as BGRA 32-bit.
 				if (Image->Format != IL_BGRA || Image->Type != IL_UNSIGNED_BYTE) {  // No need to convert if already this format/type.
-					ByteData = ilConvertBuffer(Image->SizeOfData, Image->Format, IL_BGRA, Image->Type, IL_UNSIGNED_BYTE, NULL, Image->Data);
-					if (ByteData == NULL)
+					TempImage = iConvertImage(Image, IL_BGRA, IL_UNSIGNED_BYTE);
+					if (TempImage == NULL)
 						return 0;
 				}
-				else
-					ByteData = Image->Data;
 
-				// Here's where all the compression and writing goes on.
-				if (!ilNVidiaCompressDXTFile(ByteData, Image->Width, Image->Height, 1, DXTCFormat))
+				// Here's where all the compression goes on.
+				BlockData = ilNVidiaCompressDXT(TempImage->Data, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
+				if (TempImage != Image)
+					ilCloseImage(TempImage);
+				if (BlockData == NULL)
 					return 0;
 
-				if (ByteData != Image->Data)
-					ifree(ByteData);
+				iPutBytes(Out, BlockData, DXTCSize);
+				ifree(BlockData);
 
-				return Image->Width * Image->Height * 4;  // Either compresses all or none.
+				return DXTCSize;  // Either compresses all or none.
 			}
 		}
 #endif//IL_USE_DXTC_NVIDIA
@@ -731,32 +863,26 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 #ifdef IL_USE_DXTC_SQUISH
 		if (ilIsEnabled(IL_SQUISH_COMPRESS) && Image->Depth == 1) {  // See if we need to use the nVidia Texture Tools library.
 			if (DXTCFormat == IL_DXT1 || DXTCFormat == IL_DXT1A || DXTCFormat == IL_DXT3 || DXTCFormat == IL_DXT5) {
+				ILimage *TempImage = Image;
+
 				// libsquish needs data as RGBA 32-bit.
 				if (Image->Format != IL_RGBA || Image->Type != IL_UNSIGNED_BYTE) {  // No need to convert if already this format/type.
-					ByteData = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, IL_RGBA, Image->Type, IL_UNSIGNED_BYTE, NULL, Image->Data);
-					if (ByteData == NULL)
+					TempImage = iConvertImage(Image, IL_RGBA, IL_UNSIGNED_BYTE);
+					if (TempImage == NULL)
 						return 0;
 				}
-				else
-					ByteData = Image->Data;
 
 				// Get compressed data here.
-				BlockData = ilSquishCompressDXT(ByteData, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
+				BlockData = ilSquishCompressDXT(TempImage->Data, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
+				if (TempImage != Image)
+					ilCloseImage(TempImage);
 				if (BlockData == NULL)
 					return 0;
 
-				if (iwrite(BlockData, 1, DXTCSize) != DXTCSize) {
-					if (ByteData != Image->Data)
-						ifree(ByteData);
-					ifree(BlockData);
-					return 0;
-				}
-
-				if (ByteData != Image->Data)
-					ifree(ByteData);
+				iPutBytes(Out, BlockData, DXTCSize);
 				ifree(BlockData);
 
-				return Image->Width * Image->Height * 4;  // Either compresses all or none.
+				return DXTCSize;  // Either compresses all or none.
 			}
 		}
 #endif//IL_USE_DXTC_SQUISH
@@ -766,7 +892,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 			if (Data == NULL)
 				return 0;
 
-			Alpha = ilGetAlpha(IL_UNSIGNED_BYTE);
+			Alpha = iGetAlphaValues(Image);
 			if (Alpha == NULL) {
 				ifree(Data);
 				return 0;
@@ -805,13 +931,13 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 							GetBlock(Block, Runner16, Image, x, y);
 							ChooseEndpoints(Block, &ex0, &ex1);
 							CorrectEndDXT1(&ex0, &ex1, HasAlpha);
-							SaveLittleUShort(ex0);
-							SaveLittleUShort(ex1);
+							Out = iPutUShort(Out, ex0);
+							Out = iPutUShort(Out, ex1);
 							if (HasAlpha)
 								BitMask = GenBitMask(ex0, ex1, 3, Block, AlphaBlock, NULL);
 							else
 								BitMask = GenBitMask(ex0, ex1, 4, Block, NULL, NULL);
-							SaveLittleUInt(BitMask);
+							Out = iPutUInt(Out, BitMask);
 							Count += 8;
 						}
 					}
@@ -826,16 +952,16 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 					for (x = 0; x < Image->Width; x += 4) {
 						GetAlphaBlock(AlphaBlock, Alpha, Image, x, y);
 						for (i = 0; i < 16; i += 2) {
-							iputc((ILubyte)(((AlphaBlock[i] >> 4) << 4) | (AlphaBlock[i+1] >> 4)));
+							*Out++ = (ILubyte)(((AlphaBlock[i] >> 4) << 4) | (AlphaBlock[i+1] >> 4));
 						}
 
 						GetBlock(Block, Data, Image, x, y);
 						PreMult(Block, AlphaBlock);
 						ChooseEndpoints(Block, &ex0, &ex1);
-						SaveLittleUShort(ex0);
-						SaveLittleUShort(ex1);
+						Out = iPutUShort(Out, ex0);
+						Out = iPutUShort(Out, ex1);
 						BitMask = GenBitMask(ex0, ex1, 4, Block, NULL, NULL);
-						SaveLittleUInt(BitMask);
+						Out = iPutUInt(Out, BitMask);
 					}		
 				}
 				break;*/
@@ -846,7 +972,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 						for (x = 0; x < Image->Width; x += 4) {
 							GetAlphaBlock(AlphaBlock, Runner8, Image, x, y);
 							for (i = 0; i < 16; i += 2) {
-								iputc((ILubyte)(((AlphaBlock[i+1] >> 4) << 4) | (AlphaBlock[i] >> 4)));
+								*Out++ = (ILubyte)(((AlphaBlock[i+1] >> 4) << 4) | (AlphaBlock[i] >> 4));
 							}
 
 							GetBlock(Block, Runner16, Image, x, y);
@@ -854,10 +980,10 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 							ex0 = IL_MAX(t0, t1);
 							ex1 = IL_MIN(t0, t1);
 							CorrectEndDXT1(&ex0, &ex1, 0);
-							SaveLittleUShort(ex0);
-							SaveLittleUShort(ex1);
+							Out = iPutUShort(Out, ex0);
+							Out = iPutUShort(Out, ex1);
 							BitMask = GenBitMask(ex0, ex1, 4, Block, NULL, NULL);
-							SaveLittleUInt(BitMask);
+							Out = iPutUInt(Out, BitMask);
 							Count += 16;
 						}
 					}
@@ -884,19 +1010,19 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 								a1 = a0;
 								a0 = Rms2;
 							}*/
-							iputc(a0);
-							iputc(a1);
-							iwrite(AlphaBitMask, 1, 6);
+							*Out++ = a0;
+							*Out++ = a1;
+							Out = iPutBytes(Out, AlphaBitMask, 6);
 
 							GetBlock(Block, Runner16, Image, x, y);
 							ChooseEndpoints(Block, &t0, &t1);
 							ex0 = IL_MAX(t0, t1);
 							ex1 = IL_MIN(t0, t1);
 							CorrectEndDXT1(&ex0, &ex1, 0);
-							SaveLittleUShort(ex0);
-							SaveLittleUShort(ex1);
+							Out = iPutUShort(Out, ex0);
+							Out = iPutUShort(Out, ex1);
 							BitMask = GenBitMask(ex0, ex1, 4, Block, NULL, NULL);
-							SaveLittleUInt(BitMask);
+							Out = iPutUInt(Out, BitMask);
 							Count += 16;
 						}
 					}
@@ -965,12 +1091,14 @@ ILboolean Get3DcBlock(ILubyte *Block, ILubyte *Data, ILimage *Image, ILuint XPos
 
 	for (y = 0; y < 4; y++) {
 		for (x = 0; x < 4; x++) {
-			if (x < Image->Width && y < Image->Height)
+			if (XPos + x < Image->Width && YPos + y < Image->Height)
                 Block[i++] = Data[Offset + 2*x];
             else
                 Block[i++] = Data[Offset];
 		}
-        Offset += 2*Image->Width;
+		// We do not want to read past the end of the image.
+		if (YPos + y + 1 < Image->Height)
+			Offset += 2*Image->Width;
 	}
 
 	return IL_TRUE;
@@ -1164,6 +1292,7 @@ void ChooseEndpoints(ILushort *Block, ILushort *ex0, ILushort *ex1)
 	ILuint		i;
 	Color888	Colours[16];
 	ILint		Lowest=0, Highest=0;
+	ILuint		Dist, Farthest = 0;
 
 	for (i = 0; i < 16; i++) {
 		ShortToColor888(Block[i], &Colours[i]);
@@ -1173,6 +1302,17 @@ void ChooseEndpoints(ILushort *Block, ILushort *ex0, ILushort *ex1)
 		if (NormSquared(&Colours[i]) > NormSquared(&Colours[Highest]))
  			Highest = i;
 	}
+	// All the colours can be as bright as each other without being the same.
+	if (NormSquared(&Colours[Highest]) == NormSquared(&Colours[Lowest])) {
+		for (i = 0; i < 16; i++) {
+			Dist = Distance(&Colours[i], &Colours[Highest]);
+			if (Dist > Farthest) {
+				Farthest = Dist;
+				Lowest = i;
+			}
+		}
+	}
+
 	*ex0 = Block[Highest];
 	*ex1 = Block[Lowest];
 }
@@ -1247,12 +1387,10 @@ void PreMult(ILushort *Data, ILubyte *Alpha)
 //  The data must be in unsigned byte RGBA or BGRA format.  Only DXT1, DXT3 and DXT5 are supported.
 ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Height, ILuint Depth, ILenum DXTCFormat, ILuint *DXTCSize)
 {
-	ILimage *TempImage, *CurImage = iCurImage;
-	ILuint	BuffSize;
-	ILubyte	*Buffer;
+	ILimage TempImage;
 
 	if ((DXTCFormat != IL_DXT1 && DXTCFormat != IL_DXT1A && DXTCFormat != IL_DXT3 && DXTCFormat != IL_DXT5)
-		|| Data == NULL || Width == 0 || Height == 0 || Depth == 0) {
+		|| Data == NULL || Width == 0 || Height == 0 || Depth == 0 || DXTCSize == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
@@ -1277,37 +1415,19 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 	}
 #endif//IL_USE_DXTC_SQUISH
 
-	TempImage = (ILimage*)ialloc(sizeof(ILimage));
-	memset(TempImage, 0, sizeof(ILimage));
-	TempImage->Width = Width;
-	TempImage->Height = Height;
-	TempImage->Depth = Depth;
-	TempImage->Bpp = 4;  // RGBA or BGRA
-	TempImage->Format = IL_BGRA;
-	TempImage->Bpc = 1;  // Unsigned bytes only
-	TempImage->Type = IL_UNSIGNED_BYTE;
-	TempImage->SizeOfPlane = TempImage->Bps * Height;
-	TempImage->SizeOfData  = TempImage->SizeOfPlane * Depth;
-	TempImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	TempImage->Data = Data;
-
-	BuffSize = ilGetDXTCData(NULL, 0, DXTCFormat);
-	if (BuffSize == 0)
-		return NULL;
-	Buffer = (ILubyte*)ialloc(BuffSize);
-	if (Buffer == NULL)
-		return NULL;
-
-	if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
-		ifree(Buffer);
-		return NULL;
-	}
-	*DXTCSize = BuffSize;
-
-	// Restore backup of iCurImage.
-	iCurImage = CurImage;
-	TempImage->Data = NULL;
-	ilCloseImage(TempImage);
-
-	return Buffer;
+	imemclear(&TempImage, sizeof(ILimage));
+	TempImage.Width = Width;
+	TempImage.Height = Height;
+	TempImage.Depth = Depth;
+	TempImage.Bpp = 4;  // RGBA or BGRA
+	TempImage.Format = IL_BGRA;
+	TempImage.Bpc = 1;  // Unsigned bytes only
+	TempImage.Type = IL_UNSIGNED_BYTE;
+	TempImage.Bps = Width * TempImage.Bpp;
+	TempImage.SizeOfPlane = TempImage.Bps * Height;
+	TempImage.SizeOfData  = TempImage.SizeOfPlane * Depth;
+	TempImage.Origin = IL_ORIGIN_UPPER_LEFT;
+	TempImage.Data = Data;
+
+	return iGetDXTCBlocks(&TempImage, DXTCFormat, DXTCSize);
 }
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index e8d4d63..6729828 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1937,37 +1937,48 @@ void ilFreeImageDxtcData()
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 {
 	ILuint CompFormat;
+	ILuint64 SizeOfData;
+	ILubyte *Data;
 
 	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
-	if (!(iCurImage->DxtcFormat == IL_DXT1 || iCurImage->DxtcFormat == IL_DXT3
-		|| iCurImage->DxtcFormat == IL_DXT5)) {
+	if (!(iCurImage->DxtcFormat == IL_DXT1 || iCurImage->DxtcFormat == IL_DXT1A
+		|| iCurImage->DxtcFormat == IL_DXT3 || iCurImage->DxtcFormat == IL_DXT5)) {
 		ilSetError(IL_INVALID_PARAM); //TODO
 		return IL_FALSE;
 	}
 
 	//@TODO: is this right for all dxt formats? works for
 	//  DXT1, 3, 5
+	SizeOfData = (ILuint64)iCurImage->Width * iCurImage->Height * iCurImage->Depth * 4;
+	if (SizeOfData > 0x7FFFFFFF) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	if (iCurImage->Data == NULL || iCurImage->SizeOfData != SizeOfData) {
+		Data = (ILubyte*)ialloc((ILsizei)SizeOfData);
+		if (Data == NULL)
+			return IL_FALSE;
+		ifree(iCurImage->Data);
+		iCurImage->Data = Data;
+	}
+
 	iCurImage->Bpp = 4;
 	iCurImage->Bpc = 1;
 	iCurImage->Bps = iCurImage->Width*iCurImage->Bpp*iCurImage->Bpc;
 	iCurImage->SizeOfPlane = iCurImage->Height*iCurImage->Bps;
+	iCurImage->SizeOfData = (ILuint)SizeOfData;
 	iCurImage->Format = IL_RGBA;
 	iCurImage->Type = IL_UNSIGNED_BYTE;
 
-	if (iCurImage->SizeOfData != iCurImage->SizeOfPlane*iCurImage->Depth) {
-		iCurImage->SizeOfData = iCurImage->Depth*iCurImage->SizeOfPlane;
-		if (iCurImage->Data != NULL)
-			ifree(iCurImage->Data);
-		iCurImage->Data = NULL;
-	}
-
-	if (iCurImage->Data == NULL) {
-		iCurImage->Data = (ILubyte*)ialloc(iCurImage->SizeOfData);
-	}
+	// The image is not indexed any more.
+	ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = NULL;
+	iCurImage->Pal.PalSize = 0;
+	iCurImage->Pal.PalType = IL_PAL_NONE;
 
 	Image = iCurImage;
 	Width = iCurImage->Width;
@@ -1975,13 +1986,16 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 	Depth = iCurImage->Depth;
 	switch(iCurImage->DxtcFormat)
 	{
-		case IL_DXT1: CompFormat = PF_DXT1; break;
+		case IL_DXT1:
+		case IL_DXT1A: CompFormat = PF_DXT1; break;
 		case IL_DXT3: CompFormat = PF_DXT3; break;
 		case IL_DXT5: CompFormat = PF_DXT5; break;
 	}
 	CompData = iCurImage->DxtcData;
 	DdsDecompress(CompFormat, IL_FALSE); //@TODO: globals suck...fix this
 	//@TODO: Should we ever expect this to be IL_TRUE?
+	CompData = NULL;  // It still belongs to the image.
+	Image = NULL;
 
 	//@TODO: origin should be set in Decompress()...
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -2021,6 +2035,11 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 {
 	ILuint Size;
 	ILubyte* Data;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	ilFreeSurfaceDxtcData();
 
 	Size = ilGetDXTCData(NULL, 0, Format);
@@ -2033,7 +2052,10 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 	if (Data == NULL)
 		return IL_FALSE;
             
-	ilGetDXTCData((void*)Data, Size, Format);
+	if (ilGetDXTCData((void*)Data, Size, Format) != Size) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 
 	//These have to be after the call to ilGetDXTCData()
 	iCurImage->DxtcData = Data;
@@ -2066,6 +2088,7 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 				ret = IL_FALSE;
 		}
 	}
+	ilBindImage(ImgID);
 
 	return ret;
 }
@@ -2076,70 +2099,66 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 //functions as well, but for now this is sufficient)
 ILAPI ILboolean ILAPIENTRY ilTexImageDxtc(ILint w, ILint h, ILint d, ILenum DxtFormat, const ILubyte* data)
 {
-	ILimage* Image = iCurImage;
-
-	ILint xBlocks, yBlocks, BlockSize, LineSize, DataSize;
-
+	ILuint64 DataSize;
+	ILuint BlockSize;
+	ILubyte* DxtcData;
 
-	//The next few lines are copied from ilTexImage() and ilInitImage() -
-	//should be factored in more reusable functions...
-	if (Image == NULL) {
+	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-
-	////
-
-	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
-		ifree(Image->Pal.Palette);
+	if (w <= 0 || h <= 0 || d <= 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
 	}
 
-	// These are set NULL later by the memset call.
-	ilCloseImage(Image->Mipmaps);
-	ilCloseImage(Image->Next);
-	ilCloseImage(Image->Faces);
-	ilCloseImage(Image->Layers);
-
-	if (Image->AnimList) ifree(Image->AnimList);
-	if (Image->Profile)  ifree(Image->Profile);
-	if (Image->DxtcData) ifree(Image->DxtcData);
-	if (Image->Data)	 ifree(Image->Data);
-
-
-	////
-
-	memset(Image, 0, sizeof(ILimage));
-	Image->Width	   = w;
-	Image->Height	   = h;
-	Image->Depth	   = d;
-
-	//TODO: What about origin with dxtc data?
-	Image->Origin	   = IL_ORIGIN_LOWER_LEFT;
-	Image->Pal.PalType = IL_PAL_NONE;
+	switch (DxtFormat)
+	{
+		case IL_DXT1:
+		case IL_DXT1A:
+		case IL_ATI1N:
+			BlockSize = 8;
+			break;
+		case IL_DXT2:
+		case IL_DXT3:
+		case IL_DXT4:
+		case IL_DXT5:
+		case IL_3DC:
+		case IL_RXGB:
+			BlockSize = 16;
+			break;
+		default:
+			ilSetError(IL_INVALID_PARAM);
+			return IL_FALSE;
+	}
 
     // Allocate DXT data buffer
-	xBlocks = (w + 3)/4;
-	yBlocks = (h + 3)/4;
-	if (DxtFormat == IL_DXT1)
-		BlockSize = 8;
-	else
-		BlockSize = 16;
-
-	LineSize = xBlocks * BlockSize;
-
-	DataSize = yBlocks * LineSize * d;
-
-	Image->DxtcFormat  = DxtFormat;
-    Image->DxtcSize = DataSize;
-	Image->DxtcData    = (ILubyte*)ialloc(DataSize);
+	DataSize = ((ILuint64)w + 3)/4 * (((ILuint64)h + 3)/4) * d;
+	if (DataSize > 0x7FFFFFFF / 16) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	DataSize *= BlockSize;
+	DxtcData = (ILubyte*)ialloc((ILsizei)DataSize);
+	if (DxtcData == NULL)
+		return IL_FALSE;
 
-	if (Image->DxtcData == NULL) {
+	// The image is blank until the data is decompressed.
+	//TODO: What about origin with dxtc data?
+	if (!ilTexImage(w, h, d, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		ifree(DxtcData);
 		return IL_FALSE;
 	}
 
-	if (data != NULL)
-		memcpy(Image->DxtcData, data, DataSize);
+	if (data != NULL) {
+		memcpy(DxtcData, data, (size_t)DataSize);
+	}
+	else {
+		imemclear(DxtcData, (ILuint)DataSize);
+	}
+	iCurImage->DxtcFormat = DxtFormat;
+	iCurImage->DxtcSize   = (ILuint)DataSize;
+	iCurImage->DxtcData   = DxtcData;
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-IL/src/il_squish.cpp b/DevIL/src-IL/src/il_squish.cpp
index 20819d5..a5e7f01 100755
--- a/DevIL/src-IL/src/il_squish.cpp
+++ b/DevIL/src-IL/src/il_squish.cpp
@@ -65,7 +65,7 @@ ILAPI ILubyte* ILAPIENTRY ilSquishCompressDXT(ILubyte *Data, ILuint Width, ILuin
 			break;
 		default:  // Does not support DXT2 or DXT4.
 			ilSetError(IL_INVALID_PARAM);
-			break;
+			return NULL;
 	}
 
 	Size = squish::GetStorageRequirements(Width, Height, Flags);
-- 
2.43.0


From acf5297304c3151d7b387787a2731d20f0d7e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 118/185] fix: VTF: DXT blocks of small levels were read beyond
 their buffer, kept DXT data crashed the loader, failures left a sub-image
 selected

---
 DevIL/src-IL/src/il_vtf.cpp | 129 +++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 61 deletions(-)

diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 0dd745e..62a112b 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -222,23 +222,60 @@ ILboolean ilLoadVtfL(const void *Lump, ILuint Size)
 }
 
 
+// Reads and decompresses the blocks of one picture.
+static ILboolean VtfReadDXT(ILimage *Image, ILenum Format, ILuint BlockSize)
+{
+	ILuint		Size = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * Image->Depth * BlockSize;
+	ILubyte		*CompData = (ILubyte*)ialloc(Size);
+	ILboolean	bRet;
+
+	if (CompData == NULL)
+		return IL_FALSE;
+	if (iread(CompData, 1, Size) != Size) {
+		ifree(CompData);
+		return IL_FALSE;
+	}
+
+	switch (Format)
+	{
+		case IL_DXT1:
+			bRet = DecompressDXT1(Image, CompData);
+			break;
+		case IL_DXT3:
+			bRet = DecompressDXT3(Image, CompData);
+			break;
+		default:
+			bRet = DecompressDXT5(Image, CompData);
+	}
+
+	// Keep a copy of the DXTC data if the user wants it.
+	if (bRet && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+		Image->DxtcSize = Size;
+		Image->DxtcData = CompData;
+		Image->DxtcFormat = Format;
+	}
+	else
+		ifree(CompData);
+
+	return bRet;
+}
+
+
 // Internal function used to load the VTF.
 ILboolean iLoadVtfInternal(void)
 {
 	ILboolean	bVtf = IL_TRUE;
-	ILimage		*Image, *BaseImage;
+	ILimage		*Image, *FrameImage, *FaceImage;
 	ILenum		Format, Type;
-	ILint		Frame, Face, Mipmap;
+	ILint		Frame, Face, Mipmap, i;
 	ILuint		SizeOfData, Channels, k;
 	ILubyte		*CompData = NULL, SwapVal, *Data16Bit, *Temp, NumFaces;
 	VTFHEAD		Head;
-	ILuint		CurName;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	CurName = ilGetCurName();
 	
 	if (!iGetVtfHead(&Head))
 		return IL_FALSE;
@@ -246,6 +283,13 @@ ILboolean iLoadVtfInternal(void)
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
+	// Zero is the same as one in these.
+	if (Head.Depth == 0)
+		Head.Depth = 1;
+	if (Head.Frames == 0)
+		Head.Frames = 1;
+	if (Head.MipmapCount == 0)
+		Head.MipmapCount = 1;
 
 	if (Head.Flags & TEXTUREFLAGS_ENVMAP) {
 		// If we have a spherical map in addition to the 6 sides of the cubemap, FirstFrame's bits
@@ -257,7 +301,7 @@ ILboolean iLoadVtfInternal(void)
 
 	// Skip the low resolution image.  This is just a thumbnail.
 	//  The block size is 8, and the compression ratio is 6:1.
-	SizeOfData = IL_MAX(Head.LowResImageWidth * Head.LowResImageHeight / 2, 8);
+	SizeOfData = ((Head.LowResImageWidth + 3) / 4) * ((Head.LowResImageHeight + 3) / 4) * 8;
 	if (Head.LowResImageWidth == 0 && Head.LowResImageHeight == 0)
 		SizeOfData = 0;  // No low resolution image present.
 	iseek(SizeOfData, IL_SEEK_CUR);
@@ -371,10 +415,11 @@ ILboolean iLoadVtfInternal(void)
 	// The origin should be in the upper left.
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	// Create any mipmaps.
-	VtfInitFacesMipmaps(iCurImage, NumFaces, &Head);
+	if (!VtfInitFacesMipmaps(iCurImage, NumFaces, &Head))
+		return IL_FALSE;
 
 	// Create our animation chain
-	BaseImage = Image = iCurImage;  // Top-level image
+	Image = iCurImage;  // Top-level image
 	for (Frame = 1; Frame < Head.Frames; Frame++) {
 		Image->Next = ilNewImageFull(Head.Width, Head.Height, Head.Depth, Channels, Format, Type, NULL);
 		if (Image->Next == NULL)
@@ -384,77 +429,38 @@ ILboolean iLoadVtfInternal(void)
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 		// Create our faces and mipmaps for each frame.
-		VtfInitFacesMipmaps(Image, NumFaces, &Head);
+		if (!VtfInitFacesMipmaps(Image, NumFaces, &Head))
+			return IL_FALSE;
 	}
 
 	// We want to put the smallest mipmap at the end, but it is first in the file, so we count backwards.
 	for (Mipmap = Head.MipmapCount - 1; Mipmap >= 0; Mipmap--) {
 		// Frames are in the normal order.
-		for (Frame = 0; Frame < Head.Frames; Frame++) {
+		FrameImage = iCurImage;
+		for (Frame = 0; Frame < Head.Frames; Frame++, FrameImage = FrameImage->Next) {
 			// @TODO: Cubemap faces are always in the same order?
-			for (Face = 0; Face < NumFaces; Face++) {
-				//@TODO: Would probably be quicker to do the linked list traversal manually here.
-				ilBindImage(CurName);
-				ilActiveImage(Frame);
-				ilActiveFace(Face);
-				ilActiveMipmap(Mipmap);
-				Image = iCurImage;
+			FaceImage = FrameImage;
+			for (Face = 0; Face < NumFaces; Face++, FaceImage = FaceImage->Faces) {
+				Image = FaceImage;
+				for (i = 0; i < Mipmap; i++)
+					Image = Image->Mipmaps;
 
 				switch (Head.HighResImageFormat)
 				{
 					// DXT1 compression
 					case IMAGE_FORMAT_DXT1:
 					case IMAGE_FORMAT_DXT1_ONEBITALPHA:
-						// The block size is 8.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth / 2, 8);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
-						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
-						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
-							Image->DxtcSize = SizeOfData;
-							Image->DxtcData = CompData;
-							Image->DxtcFormat = IL_DXT5;
-							CompData = NULL;
-						}
-						bVtf = DecompressDXT1(Image, CompData);
+						bVtf = VtfReadDXT(Image, IL_DXT1, 8);
 						break;
 
 					// DXT3 compression
 					case IMAGE_FORMAT_DXT3:
-						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
-						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
-						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
-							Image->DxtcSize = SizeOfData;
-							Image->DxtcData = CompData;
-							Image->DxtcFormat = IL_DXT3;
-							CompData = NULL;
-						}
-						bVtf = DecompressDXT3(Image, CompData);
+						bVtf = VtfReadDXT(Image, IL_DXT3, 16);
 						break;
 
 					// DXT5 compression
 					case IMAGE_FORMAT_DXT5:
-						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
-						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
-						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
-							Image->DxtcSize = SizeOfData;
-							Image->DxtcData = CompData;
-							Image->DxtcFormat = IL_DXT5;
-							CompData = NULL;
-						}
-						bVtf = DecompressDXT5(Image, CompData);
+						bVtf = VtfReadDXT(Image, IL_DXT5, 16);
 						break;
 
 					// Uncompressed BGR(A) data (24-bit and 32-bit)
@@ -575,7 +581,7 @@ ILboolean iLoadVtfInternal(void)
 							Image->Data[k+1] = ((Data16Bit[0] & 0xE0) >> 2) | ((Data16Bit[1] & 0x03) << 6);
 							Image->Data[k+2] =  (Data16Bit[1] & 0x7C) << 1;
 							// 1-bit alpha is either off or on.
-							Image->Data[k+3] = ((Data16Bit[0] & 0x80) == 0x80) ? 0xFF : 0x00;
+							Image->Data[k+3] = ((Data16Bit[1] & 0x80) == 0x80) ? 0xFF : 0x00;
 							Data16Bit += 2;
 						}
 						break;
@@ -584,6 +590,8 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRX5551:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
+						if (CompData == NULL)
+							return IL_FALSE;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -625,7 +633,6 @@ ILboolean iLoadVtfInternal(void)
 		}
 	}
 
-	ilBindImage(CurName);  // Set to parent image first.
 	return ilFixImage();
 }
 
@@ -926,7 +933,7 @@ ILboolean iSaveVtfInternal()
 	if (Compression == IL_DXT_NO_COMP)
 		bRet = iwrite(TempImage->Data, TempImage->SizeOfPlane, 1) == 1;
 	else
-		bRet = iwrite(CompData, CompSize, 1) == 1;
+		bRet = iwrite(CompData, CompSize / iCurImage->Depth, 1) == 1;  // Only the first slice
 
 	ifree(CompData);
 	ilCloseImage(TempImage);
-- 
2.43.0


From 3da4923735023216cdcbdd591e348f43e500ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 119/185] fix: TGA: the extension area had 12 bytes too many,
 so its texts and numbers were in the wrong places

---
 DevIL/src-IL/src/il_targa.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 7b09248..ace53e1 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -794,9 +794,6 @@ ILboolean iSaveTargaInternal()
 	SaveLittleUShort((ILushort)Minute);
 	SaveLittleUShort((ILushort)Second);
 	
-	for (i = 0; i < 6; i++) {  // Time created
-		SaveLittleUShort(0);
-	}
 	for (i = 0; i < 41; i++) {	// Job name/ID
 		iputc(0);
 	}
-- 
2.43.0


From d171ca70afa772e3baab0dd257312db55c067fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 120/185] fix: PSD: half-float images were saved as their bits,
 a failed palette conversion leaked the picture

---
 DevIL/src-IL/src/il_psd.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index 0c20325..5a493e0 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -761,7 +761,7 @@ ILboolean iSavePsdInternal()
 			Format = IL_RGBA;
 			Mode = 3;
 	}
-	if (iCurImage->Bpc > 2)
+	if (iCurImage->Bpc > 2 || Type == IL_HALF)
 		Type = IL_UNSIGNED_SHORT;
 	if (Format == IL_COLOUR_INDEX && iCurImage->Type != IL_UNSIGNED_BYTE) {
 		ilSetError(IL_INVALID_CONVERSION);
@@ -792,6 +792,8 @@ ILboolean iSavePsdInternal()
 		if (TempPal == NULL) {
 			if (TempData != TempImage->Data)
 				ifree(TempData);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From ef281393bfedc5634db6ebf33197108e6ab81a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 121/185] fix: failed seeks while saving went unnoticed, bytes
 skipped in a memory file kept what the buffer held before

---
 DevIL/src-IL/src/il_files.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index d5ca1df..588b6fd 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -716,6 +716,8 @@ ILint ILAPIENTRY iPutcLump(ILubyte Char)
 		ilSetError(IL_FILE_WRITE_ERROR);
 		return IL_EOF;  // IL_EOF
 	}
+	if (WriteLumpPos > WriteLumpEnd)  // What has been skipped is zero.
+		memset((ILubyte*)WriteLump + WriteLumpEnd, 0, WriteLumpPos - WriteLumpEnd);
 	*((ILubyte*)(WriteLump) + WriteLumpPos++) = Char;
 	if (WriteLumpPos > WriteLumpEnd)
 		WriteLumpEnd = WriteLumpPos;
@@ -749,6 +751,9 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 	else
 		ByteSize = Avail;
 
+	// Like in a file, what has been skipped is zero.
+	if (WriteLumpPos > WriteLumpEnd)
+		memset((ILubyte*)WriteLump + WriteLumpEnd, 0, WriteLumpPos - WriteLumpEnd);
 	memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, ByteSize);
 	WriteLumpPos += ByteSize;
 	if (WriteLumpPos > WriteLumpEnd)
@@ -766,9 +771,16 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 
 ILint ILAPIENTRY iSeekWFile(ILint Offset, ILuint Mode)
 {
+	ILint Ret;
+
 	if (Mode == IL_SEEK_SET)
 		Offset += WriteFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
-	return SeekWProc(FileWrite, Offset, Mode);
+	Ret = SeekWProc(FileWrite, Offset, Mode);
+	if (Ret != 0) {  // What is written next ends up in the wrong place.
+		iWriteFailed = IL_TRUE;
+		ilSetError(IL_FILE_WRITE_ERROR);
+	}
+	return Ret;
 }
 
 
-- 
2.43.0


From e3b68a65a11eb30630e3e797019624968f7980ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 122/185] fix: HDR: loaded values were 256/255 too large

---
 DevIL/src-IL/src/il_hdr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index 6da0c4e..d4c0560 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -263,9 +263,9 @@ ILboolean iLoadHdrInternal()
 			ff = (ILfloat*)ee;
 			t = *ff;
 			
-			data[0] = (r/255.0f)*t;
-			data[1] = (g/255.0f)*t;
-			data[2] = (b/255.0f)*t;
+			data[0] = (r/256.0f)*t;
+			data[1] = (g/256.0f)*t;
+			data[2] = (b/256.0f)*t;
 			data += Header.Mirrored ? -3 : 3;
 		}
 	}
-- 
2.43.0


From a1ee51cc3dc3ca73c680d6b24823693c49825286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 123/185] fix: A load that fails leaves no incomplete indexed
 image behind

---
 DevIL/src-IL/src/il_io.cpp | 58 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 742a482..1a44011 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -19,6 +19,40 @@ extern ILboolean iWriteFailed;
 static ILboolean iSaveByExtension(ILconst_string FileName);
 static ILboolean iSaveByType(ILenum Type, ILconst_string FileName);
 static ILuint iSaveToLump(ILenum Type, void *Lump, ILuint Size);
+static ILboolean iLoadByType(ILenum Type, ILconst_string FileName);
+static ILboolean iLoadFromFile(ILenum Type, ILHANDLE File);
+static ILboolean iLoadFromLump(ILenum Type, const void *Lump, ILuint Size);
+static ILboolean iLoadByExtension(ILconst_string FileName);
+
+
+// A loader that stops halfway can leave images behind that are not complete.
+static void iTidyImage(ILimage *Image)
+{
+	for (; Image != NULL; Image = Image->Next) {
+		if (Image->Pal.Palette == NULL || Image->Pal.PalSize == 0) {
+			ifree(Image->Pal.Palette);
+			Image->Pal.Palette = NULL;
+			Image->Pal.PalSize = 0;
+			Image->Pal.PalType = IL_PAL_NONE;
+			// There is nothing the indices could refer to.
+			if (Image->Format == IL_COLOUR_INDEX)
+				Image->Format = IL_LUMINANCE;
+		}
+		if (Image->Profile == NULL)
+			Image->ProfileSize = 0;
+		iTidyImage(Image->Mipmaps);
+		iTidyImage(Image->Faces);
+		iTidyImage(Image->Layers);
+	}
+}
+
+
+static ILboolean iLoadDone(ILboolean Loaded)
+{
+	if (!Loaded)
+		iTidyImage(iCurImage);
+	return Loaded;
+}
 
 
 // Returns a widened version of a string.
@@ -1069,6 +1103,12 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
 	       have been tried and failed.*/
 ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
+{
+	return iLoadDone(iLoadByType(Type, FileName));
+}
+
+
+static ILboolean iLoadByType(ILenum Type, ILconst_string FileName)
 {
 	ILboolean	bRet;
 
@@ -1399,6 +1439,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 	\param File File stream to load from.
 	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
 ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
+{
+	return iLoadDone(iLoadFromFile(Type, File));
+}
+
+
+static ILboolean iLoadFromFile(ILenum Type, ILHANDLE File)
 {
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -1674,6 +1720,12 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 	\param Size Size of the buffer
 	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
 ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
+{
+	return iLoadDone(iLoadFromLump(Type, Lump, Size));
+}
+
+
+static ILboolean iLoadFromLump(ILenum Type, const void *Lump, ILuint Size)
 {
 	if (Lump == NULL || Size == 0) {
 		ilSetError(IL_INVALID_PARAM);
@@ -1948,6 +2000,12 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
 	       have been tried and failed.*/
 ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
+{
+	return iLoadDone(iLoadByExtension(FileName));
+}
+
+
+static ILboolean iLoadByExtension(ILconst_string FileName)
 {
 	ILstring	Ext;
 	ILenum		Type;
-- 
2.43.0


From 36bbbb188b1e8e3aa96a557ac9679b5cfb785b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 124/185] fix: Profiles that cannot be opened or do not fit are
 refused; alpha and whole images are kept

---
 DevIL/src-IL/src/il_profiles.cpp | 36 ++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_profiles.cpp b/DevIL/src-IL/src/il_profiles.cpp
index 695f9a2..e0f9e2f 100644
--- a/DevIL/src-IL/src/il_profiles.cpp
+++ b/DevIL/src-IL/src/il_profiles.cpp
@@ -120,21 +120,23 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 			break;
 
 		// These aren't supported right now.
-		case IL_INT:
-		case IL_UNSIGNED_INT:
-		case IL_FLOAT:
-		case IL_DOUBLE:
+		default:
 			ilSetError(IL_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
 
+	if (OutProfile == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	if (InProfile == NULL) {
 		if (!iCurImage->Profile || !iCurImage->ProfileSize) {
 			ilSetError(IL_INVALID_PARAM);
 			return IL_FALSE;
 		}
-		hInProfile = iCurImage->Profile;
+		hInProfile = cmsOpenProfileFromMem(iCurImage->Profile, iCurImage->ProfileSize);
 	}
 	else {
 #ifndef _UNICODE
@@ -144,29 +146,45 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 		hInProfile = cmsOpenProfileFromFile(AnsiName, "r");
 #endif//_UNICODE
 	}
+	if (hInProfile == NULL) {
+		ilSetError(InProfile == NULL ? IL_INVALID_PARAM : IL_COULD_NOT_OPEN_FILE);
+		return IL_FALSE;
+	}
+
 #ifndef _UNICODE
  	hOutProfile = cmsOpenProfileFromFile(OutProfile, "r");
 #else
 	wcstombs(AnsiName, OutProfile, 512);
 	hOutProfile = cmsOpenProfileFromFile(AnsiName, "r");
 #endif//_UNICODE
+	if (hOutProfile == NULL) {
+		cmsCloseProfile(hInProfile);
+		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		return IL_FALSE;
+	}
 
 	hTransform = cmsCreateTransform(hInProfile, Format, hOutProfile, Format, INTENT_PERCEPTUAL, 0);
+	cmsCloseProfile(hInProfile);
+	cmsCloseProfile(hOutProfile);
+	if (hTransform == NULL) {  // The profiles do not fit the format of the image.
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
 	Temp = (ILubyte*)ialloc(iCurImage->SizeOfData);
 	if (Temp == NULL) {
+		cmsDeleteTransform(hTransform);
 		return IL_FALSE;
 	}
+	// Alpha is not touched by the transform.
+	memcpy(Temp, iCurImage->Data, iCurImage->SizeOfData);
 
-	cmsDoTransform(hTransform, iCurImage->Data, Temp, iCurImage->SizeOfData / 3);
+	cmsDoTransform(hTransform, iCurImage->Data, Temp, iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 
 	ifree(iCurImage->Data);
 	iCurImage->Data = Temp;
 
 	cmsDeleteTransform(hTransform);
-	if (InProfile != NULL)
-		cmsCloseProfile(hInProfile);
-	cmsCloseProfile(hOutProfile);
 
 #endif//IL_NO_LCMS
 
-- 
2.43.0


From c1d5a5c32c950473f1c099ecc8268fd4430cde8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 125/185] fix: A PCX palette or TIFF strip that is cut short
 leaves no uninitialised bytes

---
 DevIL/src-IL/src/il_pcx.cpp  | 2 +-
 DevIL/src-IL/src/il_tiff.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index a528b89..cec5a2c 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -262,7 +262,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Format = IL_COLOUR_INDEX;
 			iCurImage->Pal.PalType = IL_PAL_RGB24;
 			iCurImage->Pal.PalSize = 256 * 3;  // Need to find out for sure...
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+			iCurImage->Pal.Palette = (ILubyte*)icalloc(iCurImage->Pal.PalSize, 1);
 			if (iCurImage->Pal.Palette == NULL) {
 				return IL_FALSE;
 			}
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index e4348cb..b1eb13c 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -455,7 +455,7 @@ ILboolean iLoadTiffInternal()
 				return IL_FALSE;
 			}
 
-			strip = (ILubyte*)ialloc(stripsize);
+			strip = (ILubyte*)icalloc(stripsize, 1);  // libtiff may decode less than it reports
 			if (strip == NULL) {
 				TIFFClose(tif);
 				return IL_FALSE;
@@ -580,7 +580,7 @@ ILboolean iLoadTiffInternal()
 				return IL_FALSE;
 			}
 
-			strip = (ILubyte*)ialloc(stripsize);
+			strip = (ILubyte*)icalloc(stripsize, 1);  // libtiff may decode less than it reports
 			if (strip == NULL) {
 				TIFFClose(tif);
 				return IL_FALSE;
-- 
2.43.0


From 12075bf73dab3e3184aa04bde50ab64715de929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 126/185] fix: A palette dropped by the PCX and TPL loaders is
 not freed a second time

---
 DevIL/src-IL/src/il_pcx.cpp | 1 +
 DevIL/src-IL/src/il_tpl.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index cec5a2c..60d34db 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -330,6 +330,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
 				ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			iCurImage->Pal.PalSize = 0;
 			iCurImage->Pal.PalType = IL_PAL_NONE;
 		}
diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index 708b0b2..e93e7a1 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -776,6 +776,7 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 			}
 			// Get rid of the palette, since we no longer need it.
 			ifree(Image->Pal.Palette);
+			Image->Pal.Palette = NULL;
 			Image->Pal.PalType = IL_PAL_NONE;
 			Image->Pal.PalSize = 0;
 			break;
-- 
2.43.0


From c0a33ef4de644fbea1c8ccd189fcbca81d73f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 127/185] fix: Report the reads and seeks that the device
 refuses

---
 DevIL/src-IL/src/il_files.cpp | 31 +++++++++++++++++++++++++++----
 DevIL/src-IL/src/il_io.cpp    | 10 ++++++++++
 DevIL/src-IL/src/il_wbmp.cpp  |  5 ++++-
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 588b6fd..08a9ac2 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -63,6 +63,8 @@ static void	iDropCache(void);
 
 // Set when any write of the current save operation failed.
 ILboolean	iWriteFailed = IL_FALSE;
+// Set when the file refused to be read, without being at its end, or to be positioned.
+ILboolean	iReadFailed = IL_FALSE;
 
 // "Fake" size functions
 //  Definitions are in il_size.c.
@@ -442,8 +444,11 @@ static ILboolean iFillCache(void)
 	CacheStartPos += CachePos;
 	CachePos = CacheAvail = 0;
 	NumRead = ReadProc(Cache, 1, CacheSize, FileRead);
-	if (NumRead <= 0)
+	if (NumRead <= 0) {
+		if (!EofProc(FileRead))
+			iReadFailed = IL_TRUE;
 		return IL_FALSE;
+	}
 	CacheAvail = IL_MIN((ILuint)NumRead, CacheSize);
 
 	return IL_TRUE;
@@ -453,7 +458,13 @@ static ILboolean iFillCache(void)
 ILint ILAPIENTRY iGetcFile(void)
 {
 	if (!UseCache) {
-		return GetcProc(FileRead);
+		ILint Char = GetcProc(FileRead);
+		if (Char == IL_EOF) {
+			if (!EofProc(FileRead))
+				iReadFailed = IL_TRUE;
+			ilSetError(IL_FILE_READ_ERROR);
+		}
+		return Char;
 	}
 	if (CachePos >= CacheAvail && !iFillCache()) {
 		ilSetError(IL_FILE_READ_ERROR);
@@ -483,8 +494,11 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 	if (!UseCache) {
 		NumRead = ReadProc(Buffer, Size, Number, FileRead);
-		if (NumRead != Number)
+		if (NumRead != Number) {
+			if (BuffSize != 0 && !EofProc(FileRead))
+				iReadFailed = IL_TRUE;
 			ilSetError(IL_FILE_READ_ERROR);
+		}
 		return NumRead;
 	}
 
@@ -603,13 +617,22 @@ static ILint iSeekRFileFrom(ILint Offset, ILuint Mode)
 			SeekRProc(FileRead, OldPos, IL_SEEK_SET);
 			return 1;
 		}
+		if (Ret != 0 && Offset >= 0) {
+			iReadFailed = IL_TRUE;
+			ilSetError(IL_FILE_READ_ERROR);
+		}
 		return Ret;
 	}
 
 	NewPos = (ILint64)Offset + (Mode == IL_SEEK_CUR ? TellRProc(FileRead) : (ILint)ReadFileStart);
 	if (NewPos < (ILint64)ReadFileStart || NewPos > 0x7FFFFFFF)
 		return 1;
-	return SeekRProc(FileRead, (ILint)NewPos, IL_SEEK_SET);
+	Ret = SeekRProc(FileRead, (ILint)NewPos, IL_SEEK_SET);
+	if (Ret != 0) {
+		iReadFailed = IL_TRUE;
+		ilSetError(IL_FILE_READ_ERROR);
+	}
+	return Ret;
 }
 
 
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 1a44011..dc62dde 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -16,6 +16,7 @@
 #include <string.h>
 
 extern ILboolean iWriteFailed;
+extern ILboolean iReadFailed;
 static ILboolean iSaveByExtension(ILconst_string FileName);
 static ILboolean iSaveByType(ILenum Type, ILconst_string FileName);
 static ILuint iSaveToLump(ILenum Type, void *Lump, ILuint Size);
@@ -49,6 +50,11 @@ static void iTidyImage(ILimage *Image)
 
 static ILboolean iLoadDone(ILboolean Loaded)
 {
+	// What could not be read may be missing from the image, whether the loader noticed it or not.
+	if (Loaded && iReadFailed) {
+		ilSetError(IL_FILE_READ_ERROR);
+		Loaded = IL_FALSE;
+	}
 	if (!Loaded)
 		iTidyImage(iCurImage);
 	return Loaded;
@@ -1104,6 +1110,7 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 	       have been tried and failed.*/
 ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 {
+	iReadFailed = IL_FALSE;
 	return iLoadDone(iLoadByType(Type, FileName));
 }
 
@@ -1440,6 +1447,7 @@ static ILboolean iLoadByType(ILenum Type, ILconst_string FileName)
 	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
 ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 {
+	iReadFailed = IL_FALSE;
 	return iLoadDone(iLoadFromFile(Type, File));
 }
 
@@ -1721,6 +1729,7 @@ static ILboolean iLoadFromFile(ILenum Type, ILHANDLE File)
 	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
 ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 {
+	iReadFailed = IL_FALSE;
 	return iLoadDone(iLoadFromLump(Type, Lump, Size));
 }
 
@@ -2001,6 +2010,7 @@ static ILboolean iLoadFromLump(ILenum Type, const void *Lump, ILuint Size)
 	       have been tried and failed.*/
 ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 {
+	iReadFailed = IL_FALSE;
 	return iLoadDone(iLoadByExtension(FileName));
 }
 
diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 331b6e1..8f29408 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -104,7 +104,10 @@ ILboolean iLoadWbmpInternal(void)
 
 	// Reads the bits
 	for (i = 0; i < iCurImage->Height; i++) {
-		bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
+		if ((ILuint)bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File) != iCurImage->Width) {
+			bclose(File);
+			return IL_FALSE;
+		}
 		//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
 		bread(Padding, 1, BitPadding, File);  // Skip padding bits.
 	}
-- 
2.43.0


From 159406c38c3cf85835a35a1cdfdc1b5bffd05ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 128/185] fix: Fail on a TIFF page that cannot be read or
 converted

---
 DevIL/src-IL/src/il_tiff.cpp | 55 +++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index b1eb13c..12d61ba 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -285,6 +285,35 @@ static ILimage *iTiffNewPage(ILimage *Image, ILuint Width, ILuint Height, ILubyt
 }
 
 
+// Set when libtiff wanted more than the file has.
+static ILboolean TiffReadShort = IL_FALSE;
+
+// Whether the file has the offset of the page after the one at Pos: libtiff
+//  takes a missing one for the end of the chain.
+static ILboolean iTiffHasNextOffset(TIFF *tif, ILint64 Pos)
+{
+	ILubyte	Num[8];
+	ILint64	Entries = 0;
+	ILuint	i, CountSize = 2, EntrySize = 12, OffsetSize = 4;
+
+	if (TIFFIsBigTIFF(tif)) {
+		CountSize = 8;
+		EntrySize = 20;
+		OffsetSize = 8;
+	}
+
+	if (Pos > 0x7FFFFFFF || iseek((ILint)Pos, IL_SEEK_SET) != 0 || iread(Num, 1, CountSize) != CountSize)
+		return IL_FALSE;
+	for (i = 0; i < CountSize; i++)
+		Entries = Entries * 256 + Num[TIFFIsBigEndian(tif) ? i : CountSize - 1 - i];
+	if (Entries < 0 || Entries > 0xFFFF)
+		return IL_FALSE;
+	Pos += CountSize + Entries * EntrySize;
+	if (Pos > 0x7FFFFFFF || iseek((ILint)Pos, IL_SEEK_SET) != 0)
+		return IL_FALSE;
+	return iread(Num, 1, OffsetSize) == OffsetSize;
+}
+
 // Internal function used to load the Tiff.
 ILboolean iLoadTiffInternal()
 {
@@ -297,6 +326,8 @@ ILboolean iLoadTiffInternal()
 	ILuint	 i, ProfileLen, DirCount = 0;
 	void	 *Buffer;
 	ILimage  *Image, *TempImage;
+	ILboolean Converted;
+	ILint64	 LastDir;
 	ILushort si;
         ILfloat  x_position, x_resolution, y_position, y_resolution;
 	//TIFFRGBAImage img;
@@ -325,7 +356,14 @@ ILboolean iLoadTiffInternal()
 
 	do {
 		DirCount++;
+		LastDir = (ILint64)TIFFCurrentDirOffset(tif);
+		TiffReadShort = IL_FALSE;
 	} while (TIFFReadDirectory(tif));
+	if (TiffReadShort || !iTiffHasNextOffset(tif, LastDir)) {  // There is another page that cannot be read.
+		ilSetError(IL_LIB_TIFF_ERROR);
+		TIFFClose(tif);
+		return IL_FALSE;
+	}
 
 	/*
 	 if (!ilTexImage(1, 1, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
@@ -670,20 +708,21 @@ ILboolean iLoadTiffInternal()
 			//TODO: put switch into the loop??
 			TempImage = iCurImage;
 			iCurImage = Image; //ilConvertImage() converts iCurImage
+			Converted = IL_TRUE;
 			switch (samplesperpixel)
 			{
 				case 1:
 					//added 2003-08-31 to keep palettized tiffs colored
 					if(photometric != 3)
-						ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
+						Converted = ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
 					else //strip alpha as tiff supports no alpha palettes
-						ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+						Converted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 					break;
 					
 				case 3:
 					//TODO: why the ifdef??
 #ifdef __LITTLE_ENDIAN__
-					ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+					Converted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 #endif			
 					break; 
 					
@@ -704,6 +743,10 @@ ILboolean iLoadTiffInternal()
 					break;
 			}
 			iCurImage = TempImage;
+			if (!Converted) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 			
 		} //else not directly supported format
 
@@ -775,8 +818,12 @@ ILboolean iLoadTiffInternal()
 static tsize_t 
 _tiffFileReadProc(thandle_t fd, tdata_t pData, tsize_t tSize)
 {
+	ILuint NumRead = iread(pData, 1, (ILuint)tSize);
+
 	fd;
-	return iread(pData, 1, (ILuint)tSize);
+	if (NumRead != (ILuint)tSize)
+		TiffReadShort = IL_TRUE;
+	return NumRead;
 }
 
 /*----------------------------------------------------------------------------*/
-- 
2.43.0


From c89984a968fd7b552c268ba36971dfb888d0bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 129/185] fix: Fail a save that lost a text for want of memory

---
 DevIL/src-IL/src/il_states.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 34a2efd..138dcc7 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -203,6 +203,8 @@ ILconst_string ILAPIENTRY ilGetString(ILenum StringName)
 }
 
 
+extern ILboolean iWriteFailed;
+
 // Clips a string to a certain length and returns a new string.
 char *iClipString(char *String, ILuint MaxLen)
 {
@@ -218,6 +220,7 @@ char *iClipString(char *String, ILuint MaxLen)
 
 	Clipped = (char*)ialloc((MaxLen + 1) * sizeof(char) /*sizeof(ILchar)*/);  // Terminating NULL makes it +1.
 	if (Clipped == NULL) {
+		iWriteFailed = IL_TRUE;  // The text is missing from the file that is being saved.
 		return NULL;
 	}
 
-- 
2.43.0


From ce885ed843c9dd5fc31925c430bd7418db81a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 130/185] fix: Fail a scaling that could not convert the
 palette

---
 DevIL/src-ILU/src/ilu_scale.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index 432396d..a2497aa 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -138,7 +138,8 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 		if (UsePal) {
 			if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
 				return IL_FALSE;
-			ilConvertPal(PalType);
+			if (!ilConvertPal(PalType))
+				return IL_FALSE;
 		}
 		return IL_TRUE;
 	}
-- 
2.43.0


From 21aa6eb15d424ff4619ae2dba141b56a323f49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 131/185] fix: il_files: seeks and reads stay within the lump;
 loaders can ask how many bytes are left

---
 DevIL/src-IL/include/il_files.h |  1 +
 DevIL/src-IL/src/il_files.cpp   | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/DevIL/src-IL/include/il_files.h b/DevIL/src-IL/include/il_files.h
index 20701f9..d33d0de 100644
--- a/DevIL/src-IL/include/il_files.h
+++ b/DevIL/src-IL/include/il_files.h
@@ -74,6 +74,7 @@ __FILES_EXTERN ILuint			ILAPIENTRY ilprintf(const char *, ...);
 __FILES_EXTERN void				ipad(ILuint NumZeros);
 
 __FILES_EXTERN ILboolean		iPreCache(ILuint Size);
+__FILES_EXTERN ILuint			iBytesLeft(void);
 __FILES_EXTERN void				iUnCache(void);
 
 #endif//FILES_H
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 08a9ac2..256cce2 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -707,6 +707,19 @@ ILuint ILAPIENTRY iTellRLump(void)
 }
 
 
+// How many bytes there are from the current position up to the end.
+ILuint iBytesLeft(void)
+{
+	ILuint Pos = itell(), End;
+
+	iseek(0, IL_SEEK_END);
+	End = itell();
+	iseek(Pos, IL_SEEK_SET);
+
+	return End > Pos ? End - Pos : 0;
+}
+
+
 ILHANDLE ILAPIENTRY iGetFile(void)
 {
 	return FileRead;
-- 
2.43.0


From 371cf16e27f1f314bdc861de65ef862d613dee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 132/185] fix: PNM: refuse dimensions the file cannot hold

---
 DevIL/src-IL/src/il_pnm.cpp | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index b1daf5d..13c5b46 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -318,22 +318,9 @@ static ILboolean iGetPnmValue(ILuint *Value)
 }
 
 
-// How many bytes there are from the current position up to the end.
-static ILuint iPnmBytesLeft()
-{
-	ILuint Pos = itell(), End;
-
-	iseek(0, IL_SEEK_END);
-	End = itell();
-	iseek(Pos, IL_SEEK_SET);
-
-	return End > Pos ? End - Pos : 0;
-}
-
-
 ILimage *ilReadAsciiPpm(PPMINFO *Info)
 {
-	ILuint		Left = iPnmBytesLeft(), i, NumSamples, Value;
+	ILuint		Left = iBytesLeft(), i, NumSamples, Value;
 	ILint		Current;
 	ILboolean	Started;
 
-- 
2.43.0


From 7f28cb3b408e2312faa3ab8d774a351ef27a4832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 133/185] fix: CUT: runs beyond the image, image without a
 palette

---
 DevIL/src-IL/src/il_cut.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_cut.cpp b/DevIL/src-IL/src/il_cut.cpp
index b5e9e91..57c6425 100644
--- a/DevIL/src-IL/src/il_cut.cpp
+++ b/DevIL/src-IL/src/il_cut.cpp
@@ -103,10 +103,20 @@ ILboolean iLoadCutInternal()
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
+	// The palette is in another file, so the indices are greys until the user loads it with ilLoadPal.
+	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
+	if (iCurImage->Pal.Palette == NULL)
+		return IL_FALSE;
+	iCurImage->Pal.PalSize = 768;
+	iCurImage->Pal.PalType = IL_PAL_RGB24;
+	for (j = 0; j < 768; j++)
+		iCurImage->Pal.Palette[j] = j / 3;
+
 	Size = Header.Width * Header.Height;
 
 	while (i < Size) {
-		Count = igetc();
+		if (iread(&Count, 1, 1) != 1)
+			return IL_FALSE;
 		if (Count == 0) { // end of row
 			igetc();  // Not supposed to be here, but
 			igetc();  //  PSP is putting these two bytes here...WHY?!
@@ -114,15 +124,24 @@ ILboolean iLoadCutInternal()
 		}
 		if (Count & BIT_7) {  // rle-compressed
 			ClearBits(Count, BIT_7);
-			Run = igetc();
+			if (Count > Size - i) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
+			if (iread(&Run, 1, 1) != 1)
+				return IL_FALSE;
 			for (j = 0; j < Count; j++) {
 				iCurImage->Data[i++] = Run;
 			}
 		}
 		else {  // run of pixels
-			for (j = 0; j < Count; j++) {
-				iCurImage->Data[i++] = igetc();
+			if (Count > Size - i) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
 			}
+			if (iread(iCurImage->Data + i, 1, Count) != Count)
+				return IL_FALSE;
+			i += Count;
 		}
 	}
 
-- 
2.43.0


From a9047893183a7f1a4054638d457a011203d5c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 134/185] fix: BLP: check offsets, lengths and dimensions
 against the file

---
 DevIL/src-IL/src/il_blp.cpp | 68 +++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index ad3745f..d037bf1 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -248,8 +248,10 @@ ILboolean iLoadBlpInternal(void)
 	}
 
 //@TODO: Remove this!
-	if (Header.Type != BLP_TYPE_DXTC_RAW)
+	if (Header.Type != BLP_TYPE_DXTC_RAW) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
+	}
 
 	switch (Header.Compression)
 	{
@@ -260,7 +262,7 @@ ILboolean iLoadBlpInternal(void)
 						break;
 					if (Image->Width == 1 && Image->Height == 1)  // Already at the smallest mipmap (1x1), so we are done.
 						break;
-					if (Header.MipOffsets[Mip] == 0 || Header.MipLengths == 0)  // No more mipmaps in the file.
+					if (Header.MipOffsets[Mip] == 0 || Header.MipLengths[Mip] == 0)  // No more mipmaps in the file.
 						break;
 				}
 
@@ -287,7 +289,8 @@ ILboolean iLoadBlpInternal(void)
 								return IL_FALSE;
 
 							// Copy the palette from the first image before we change our Image pointer.
-							iCopyPalette(&Image->Mipmaps->Pal, &Image->Pal);
+							if (!iCopyPalette(&Image->Mipmaps->Pal, &Image->Pal))
+								return IL_FALSE;
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
 						}
@@ -317,23 +320,18 @@ ILboolean iLoadBlpInternal(void)
 								return IL_FALSE;
 
 							// Read in the palette.
-							if (iread(Palette, 1, 1024) != 1024) {
-								ifree(Palette);
-								return IL_FALSE;
-							}
+							if (iread(Palette, 1, 1024) != 1024)
+								goto raw_error;
 
 							// We only allocate this once and reuse this buffer with every mipmap (since successive ones are smaller).
 							DataAndAlpha = (ILubyte*)ialloc(Image->Width * Image->Height);
-							if (DataAndAlpha == NULL) {
-								ifree(DataAndAlpha);
-								ifree(Palette);
-								return IL_FALSE;
-							}
+							if (DataAndAlpha == NULL)
+								goto raw_error;
 						}
 						else {
 							Image->Mipmaps = ilNewImageFull(Image->Width >> 1, Image->Height >> 1, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
 							if (Image->Mipmaps == NULL)
-								return IL_FALSE;
+								goto raw_error;
 
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
@@ -342,22 +340,17 @@ ILboolean iLoadBlpInternal(void)
 						Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 						// Determine the size of the alpha data following the color indices.
-						AlphaSize = Image->Width * Image->Height / 8;
-						if (AlphaSize == 0)
-							AlphaSize = 1;  // Should never be 0.
+						AlphaSize = (Image->Width * Image->Height + 7) / 8;
 						// These two should be the same (tells us how much data is in the file for this mipmap level).
 						if (Header.MipLengths[Mip] != Image->SizeOfData / 4 + AlphaSize) {
 							ilSetError(IL_INVALID_FILE_HEADER);
-							return IL_FALSE;
+							goto raw_error;
 						}
 
 						// Seek to the data and read it.
 						iseek(Header.MipOffsets[Mip], IL_SEEK_SET);						
-						if (iread(DataAndAlpha, Image->Width * Image->Height, 1) != 1) {
-							ifree(DataAndAlpha);
-							ifree(Palette);
-							return IL_FALSE;
-						}
+						if (iread(DataAndAlpha, Image->Width * Image->Height, 1) != 1)
+							goto raw_error;
 
 						// Convert the color-indexed data to BGRX.
 						for (j = 0; j < Image->Width * Image->Height; j++) {
@@ -367,11 +360,8 @@ ILboolean iLoadBlpInternal(void)
 						}
 
 						// Read in the alpha list.
-						if (iread(DataAndAlpha, AlphaSize, 1) != 1) {
-							ifree(DataAndAlpha);
-							ifree(Palette);
-							return IL_FALSE;
-						}
+						if (iread(DataAndAlpha, AlphaSize, 1) != 1)
+							goto raw_error;
 
 						AlphaMask = 0x01;  // Lowest bit
 						AlphaOff = 0;
@@ -434,6 +424,10 @@ ILboolean iLoadBlpInternal(void)
 				// The origin should be in the upper left.
 				Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
+				if (Header.MipLengths[Mip] > iBytesLeft() + itell()) {
+					ilSetError(IL_INVALID_FILE_HEADER);
+					return IL_FALSE;
+				}
 				//@TODO: Only do the allocation once.
 				CompData = (ILubyte*)ialloc(Header.MipLengths[Mip]);
 				if (CompData == NULL)
@@ -505,6 +499,11 @@ ILboolean iLoadBlpInternal(void)
 
 	return ilFixImage();
 
+raw_error:
+	ifree(DataAndAlpha);
+	ifree(Palette);
+	return IL_FALSE;
+
 check_blp1:
 	iseek(-148, IL_SEEK_CUR);  // Go back the size of the BLP2 header, since we tried reading it.
 	return iLoadBlp1();
@@ -583,6 +582,10 @@ ILboolean iLoadBlp1()
 			return IL_FALSE;
 #else
 			JpegHeaderSize = GetLittleUInt();
+			if (JpegHeaderSize > iBytesLeft() || Header.MipLengths[i] == 0 || Header.MipLengths[i] > 0x7FFFFFFF - JpegHeaderSize) {
+				ilSetError(IL_INVALID_FILE_HEADER);
+				return IL_FALSE;
+			}
 			JpegHeader = (ILubyte*)ialloc(JpegHeaderSize);
 			if (JpegHeader == NULL)
 				return IL_FALSE;
@@ -601,12 +604,18 @@ ILboolean iLoadBlp1()
 					return IL_FALSE;
 				}
 				memcpy(JpegData, JpegHeader, JpegHeaderSize);
-				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1)
+				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1) {
+					ifree(JpegData);
+					ifree(JpegHeader);
 					return IL_FALSE;
+				}
 
 				// Just send the data straight to the Jpeg loader.
-				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i]))
+				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
+					ifree(JpegData);
+					ifree(JpegHeader);
 					return IL_FALSE;
+				}
 
 				// The image data is in BGR(A) order, even though it is Jpeg-compressed.
 				if (Image->Format == IL_RGBA)
@@ -691,6 +700,7 @@ ILboolean iLoadBlp1()
 
 					// Read in the data and the palette.
 					if (iread(Palette, 1, 1024) != 1024) {
+						ifree(DataAndAlpha);
 						ifree(Palette);
 						return IL_FALSE;
 					}
-- 
2.43.0


From 3be25b4137d72ea5ed86bf442ce22bc8c095598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 135/185] fix: DICOM: check the data length, report refusals,
 understand integer strings and the lengths of long elements

---
 DevIL/src-IL/src/il_dicom.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_dicom.cpp b/DevIL/src-IL/src/il_dicom.cpp
index 75e063c..70fa971 100644
--- a/DevIL/src-IL/src/il_dicom.cpp
+++ b/DevIL/src-IL/src/il_dicom.cpp
@@ -270,7 +270,7 @@ ILboolean SkipElement(DICOMHEAD *Header, ILushort GroupNum, ILushort ElementNum)
 		// These all have a different format than the other formats, since they can be up to 32 bits long.
 		GetLittleUShort();  // Values reserved, we do not care about them.
 		ValLen = GetInt(Header, GroupNum);//GetLittleUInt();  // Length of the rest of the element
-		if (ValLen % 2)  // This length must be even, according to the specs.
+		if (ValLen % 2 || ValLen > iBytesLeft())  // This length must be even, according to the specs.
 			return IL_FALSE;
 		if (ElementNum != 0x00)  // Element numbers of 0 tell the size of the full group, so we do not skip this.
 								 //  @TODO: We could use this to skip groups that we do not care about.
@@ -376,6 +376,8 @@ ILboolean GetNumericValue(DICOMHEAD *Header, ILushort GroupNum, ILuint *Number)
 {
 	ILubyte		VR1, VR2;
 	ILushort	ValLen;
+	char		String[13];
+	long		Value;
 
 	// 2 byte character string telling what type this element is ('OB', 'UI', etc.)
 	VR1 = igetc();
@@ -389,7 +391,7 @@ ILboolean GetNumericValue(DICOMHEAD *Header, ILushort GroupNum, ILuint *Number)
 		return IL_TRUE;
 	}
 	if (VR1 == 'U' && VR2 == 'L') {  // Unsigned long
-		ValLen = GetInt(Header, GroupNum);//GetLittleUInt();
+		ValLen = GetShort(Header, GroupNum);//GetLittleUShort();
 		if (ValLen != 4)  // Must always be 4 for long ('UL')
 			return IL_FALSE;
 		*Number = GetInt(Header, GroupNum);
@@ -403,12 +405,25 @@ ILboolean GetNumericValue(DICOMHEAD *Header, ILushort GroupNum, ILuint *Number)
 		return IL_TRUE;
 	}
 	if (VR1 == 'S' && VR2 == 'L') {  // Signed long
-		ValLen = GetInt(Header, GroupNum);
-		if (ValLen != 4)  // Must always be 4 for long ('UL')
+		ValLen = GetShort(Header, GroupNum);
+		if (ValLen != 4)  // Must always be 4 for long ('SL')
 			return IL_FALSE;
 		*((ILint*)Number) = GetInt(Header, GroupNum);
 		return IL_TRUE;
 	}
+	if (VR1 == 'I' && VR2 == 'S') {  // Integer string, which the number of frames always is
+		ValLen = GetShort(Header, GroupNum);
+		if (ValLen == 0 || ValLen > 12)  // At most 12 characters, padded with spaces
+			return IL_FALSE;
+		memset(String, 0, sizeof(String));
+		if (iread(String, 1, ValLen) != ValLen)
+			return IL_FALSE;
+		Value = strtol(String, NULL, 10);
+		if (Value < 0)
+			return IL_FALSE;
+		*Number = (ILuint)Value;
+		return IL_TRUE;
+	}
 
 	return IL_FALSE;
 }
@@ -521,8 +536,10 @@ ILboolean iLoadDicomInternal(void)
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	if (!iCheckDicom(&Header))
+	if (!iCheckDicom(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	if (!ilTexImage(Header.Width, Header.Height, Header.Depth, ilGetBppFormat(Header.Format), Header.Format, Header.Type, NULL))
 		return IL_FALSE;
-- 
2.43.0


From 971379df443a2dabd353f0273e51a06f4d31f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 136/185] fix: ICNS: check element lengths, runs beyond the
 image

---
 DevIL/src-IL/src/il_icns.cpp | 68 ++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 1aab453..36341fd 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -155,16 +155,24 @@ ILboolean iLoadIcnsInternal()
 		return IL_FALSE;
 	}
 
-	iread(Header.Head, 4, 1);
+	if (iread(Header.Head, 4, 1) != 1)
+		return IL_FALSE;
 	Header.Size = GetBigInt();
 
-	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
+	if (strncmp(Header.Head, "icns", 4)) {  // First 4 bytes have to be 'icns'.
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	while ((ILint)itell() < Header.Size && !ieof())
 	{
-		iread(Entry.ID, 4, 1);
+		if (iread(Entry.ID, 4, 1) != 1)
+			goto icns_error;
 		Entry.Size = GetBigInt();
+		if (Entry.Size < 8 || (ILuint)Entry.Size - 8 > iBytesLeft()) {  // Includes this header
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto icns_error;
+		}
 
 		if (!strncmp(Entry.ID, "it32", 4))  // 128x128 24-bit
 		{
@@ -224,6 +232,11 @@ ILboolean iLoadIcnsInternal()
 		}
 	}
 
+	if (!BaseCreated) {  // Nothing in there that we can use
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 
 icns_error:
@@ -232,7 +245,7 @@ icns_error:
 
 ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width, ICNSDATA *Entry, ILimage **Image)
 {
-	ILint		Position = 0, RLEPos = 0, Channel, i;
+	ILint		Position = 0, RLEPos = 0, Channel, i, DataSize = Entry->Size - 8, Count;
 	ILubyte		RLERead, *Data = NULL;
 	ILimage		*TempImage = NULL;
 	ILboolean	ImageAlreadyExists = IL_FALSE;
@@ -262,7 +275,11 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 	{
 		if (!*BaseCreated)  // Create base image
 		{
-			ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+			{
+				ifree(Data);
+				return IL_FALSE;
+			}
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 			*Image = iCurImage;
 			*BaseCreated = IL_TRUE;
@@ -270,6 +287,11 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		else  // Create next image in list
 		{
 			(*Image)->Next = ilNewImage(Width, Width, 1, 4, 1);
+			if ((*Image)->Next == NULL)
+			{
+				ifree(Data);
+				return IL_FALSE;
+			}
 			*Image = (*Image)->Next;
 			(*Image)->Format = IL_RGBA;
 			(*Image)->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -280,9 +302,9 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 
 	if (IsAlpha)  // Alpha is never compressed.
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
-		if (Entry->Size - 8 != Width * Width)
+		if (Entry->Size - 8 != Width * Width || iread(Data, Entry->Size - 8, 1) != 1)  // Size includes the header
 		{
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			ifree(Data);
 			return IL_FALSE;
 		}
@@ -303,13 +325,19 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 			return IL_TRUE;
 		}
 #else  // Cannot handle this size.
+		ifree(Data);
 		ilSetError(IL_LIB_JP2_ERROR);  //@TODO: Handle this better...just skip the data.
 		return IL_FALSE;
 #endif//IL_NO_JP2
 	}
 	else  // RGB data
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
+		if (iread(Data, Entry->Size - 8, 1) != 1)  // Size includes the header
+		{
+			ifree(Data);
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		if (Width == 128)
 			RLEPos += 4;  // There are an extra 4 bytes here of zeros.
 		//@TODO: Should we check to make sure they are all 0?
@@ -331,27 +359,37 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 				Position = 0;
 				while (Position < Width * Width)
 				{
-					RLERead = Data[RLEPos];
-					RLEPos++;
+					Count = 0;
+					if (RLEPos < DataSize)
+					{
+						RLERead = Data[RLEPos];
+						RLEPos++;
+						Count = RLERead >= 128 ? RLERead - 125 : RLERead + 1;
+					}
+					if (Count == 0 || (RLERead >= 128 ? 1 : Count) > DataSize - RLEPos)
+					{
+						ifree(Data);
+						ilSetError(IL_ILLEGAL_FILE_VALUE);
+						return IL_FALSE;
+					}
 
 					if (RLERead >= 128)
 					{
-						for (i = 0; i < RLERead - 125 && (Position + i) < Width * Width; i++)
+						for (i = 0; i < Count && (Position + i) < Width * Width; i++)
 						{
 							TempImage->Data[Channel + (Position + i) * 4] = Data[RLEPos];
 						}
 						RLEPos++;
-						Position += RLERead - 125;
 					}
 					else
 					{
-						for (i = 0; i < RLERead + 1 && (Position + i) < Width * Width; i++)
+						for (i = 0; i < Count && (Position + i) < Width * Width; i++)
 						{
 							TempImage->Data[Channel + (Position + i) * 4] = Data[RLEPos + i];
 						}
-						RLEPos += RLERead + 1;
-						Position += RLERead + 1;
+						RLEPos += Count;
 					}
+					Position += Count;
 				}
 			}
 		}
-- 
2.43.0


From f04ba9cc64c8007ca3de398cbacb27cf2c119e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 137/185] fix: ILBM: runs and chunks beyond their buffers, mask
 plane taken for colour, HAM control bits in the colour

---
 DevIL/src-IL/src/il_ilbm.cpp | 90 +++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 28 deletions(-)

diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index cdbf73f..da23d29 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -247,7 +247,7 @@ static ILboolean load_ilbm(void)
     ILenum      format; /* IL_RGB (ham or 24bit) or IL_COLOUR_INDEX */
 
     int start;
-    Uint8       id[4], pbm, colormap[MAXCOLORS*3], *MiniBuf, *ptr, count, color, msk;
+    Uint8       id[4], pbm, colormap[MAXCOLORS*3], *MiniBuf, *Line, *ptr, count, color, msk;
     Uint32      size, bytesloaded, nbcolors;
     Uint32      i, j, bytesperline, nbplanes, plane, h;
     Uint32      remainingbytes;
@@ -258,6 +258,7 @@ static ILboolean load_ilbm(void)
 
     error   = NULL;
     MiniBuf = NULL;
+    Line    = NULL;
 
     start = SDL_RWtell(src);
     if ( !SDL_RWread( src, id, 4, 1 ) )
@@ -302,6 +303,8 @@ static ILboolean load_ilbm(void)
     nbcolors = 0;
 
     memset( &bmhd, 0, sizeof( BMHD ) );
+    memset( colormap, 0, sizeof( colormap ) );
+    memset( scratch_pal, 0, sizeof( scratch_pal ) );
     flagHAM = 0;
     flagEHB = 0;
 
@@ -323,10 +326,18 @@ static ILboolean load_ilbm(void)
 
         size = SDL_SwapBE32( size );
 
+        if ( memcmp( id, "BODY", 4 ) != 0 && size > iBytesLeft() )
+        {
+            ilSetError(IL_ILLEGAL_FILE_VALUE);
+            error=(char*)"error reading IFF chunk";
+            goto done;
+        }
+
         if ( !memcmp( id, "BMHD", 4 ) ) /* Bitmap header */
         {
-            if ( !SDL_RWread( src, &bmhd, sizeof( BMHD ), 1 ) )
+            if ( size < sizeof( BMHD ) || !SDL_RWread( src, &bmhd, sizeof( BMHD ), 1 ) )
             {
+                ilSetError(IL_ILLEGAL_FILE_VALUE);
                 error=(char*)"error reading BMHD chunk";
                 goto done;
             }
@@ -344,8 +355,9 @@ static ILboolean load_ilbm(void)
 
         if ( !memcmp( id, "CMAP", 4 ) ) /* palette ( Color Map ) */
         {
-            if ( !SDL_RWread( src, &colormap, size, 1 ) )
+            if ( size > sizeof( colormap ) || ( size && !SDL_RWread( src, &colormap, size, 1 ) ) )
             {
+                ilSetError(IL_ILLEGAL_FILE_VALUE);
                 error=(char*)"error reading CMAP chunk";
                 goto done;
             }
@@ -357,13 +369,14 @@ static ILboolean load_ilbm(void)
         if ( !memcmp( id, "CAMG", 4 ) ) /* Amiga ViewMode  */
         {
             Uint32 viewmodes;
-            if ( !SDL_RWread( src, &viewmodes, sizeof(viewmodes), 1 ) )
+            if ( size < sizeof(viewmodes) || !SDL_RWread( src, &viewmodes, sizeof(viewmodes), 1 ) )
             {
+                ilSetError(IL_ILLEGAL_FILE_VALUE);
                 error=(char*)"error reading CAMG chunk";
                 goto done;
             }
 
-            bytesloaded = size;
+            bytesloaded = sizeof(viewmodes);
             viewmodes = SDL_SwapBE32( viewmodes );
             if ( viewmodes & 0x0800 )
                 flagHAM = 1;
@@ -388,9 +401,18 @@ static ILboolean load_ilbm(void)
 
     nbplanes = bmhd.planes;
 
+    if ( bmhd.w == 0 || bmhd.h == 0 || nbplanes == 0 || ( nbplanes > 8 && nbplanes != 24 ) ||
+         ( flagHAM && ( pbm || nbplanes < 3 || nbplanes > 8 ) ) || ( pbm && nbplanes > 8 ) ||
+         ( nbplanes <= 8 && nbcolors == 0 ) )
+    {
+        ilSetError( IL_ILLEGAL_FILE_VALUE );
+        error=(char*)"unsupported bitmap header";
+        goto done;
+    }
+
     if ( pbm )                         /* File format : 'Packed Bitmap' */
     {
-        bytesperline *= 8;
+        bytesperline = ( bmhd.w + 1 ) & ~1;  /* A byte per pixel, and rows have an even size */
         nbplanes = 1;
     }
 
@@ -412,8 +434,18 @@ static ILboolean load_ilbm(void)
     } else {
         format = IL_COLOUR_INDEX;
     }
-    if( !ilTexImage( width, bmhd.h, 1, (format==IL_COLOUR_INDEX)?1:3, format, IL_UNSIGNED_BYTE, NULL ) )
+    /* The rows are decoded here, because they are wider than the image if its width is not modulo 16 */
+    if ( ( Line = (ILubyte*)malloc( width * 3 ) ) == NULL )
+    {
+        ilSetError( IL_OUT_OF_MEMORY );
+        error=(char*)"not enough memory for temporary buffer";
+        goto done;
+    }
+    if( !ilTexImage( bmhd.w, bmhd.h, 1, (format==IL_COLOUR_INDEX)?1:3, format, IL_UNSIGNED_BYTE, NULL ) )
+    {
+        error=(char*)"cannot create the image";
         goto done;
+    }
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 #if 0 /*  No transparent colour support in DevIL? (TODO: confirm) */
@@ -424,9 +456,9 @@ static ILboolean load_ilbm(void)
     /* Update palette informations */
 
     /* There is no palette in 24 bits ILBM file */
-    if ( nbcolors>0 && flagHAM==0 )
+    if ( nbcolors>0 && format==IL_COLOUR_INDEX )
     {
-        int nbrcolorsfinal = 1 << nbplanes;
+        int nbrcolorsfinal = 1 << bmhd.planes;
         ptr = &colormap[0];
 
         for ( i=0; i<nbcolors; i++ )
@@ -455,9 +487,6 @@ static ILboolean load_ilbm(void)
 
         /* If nbcolors < 2^nbplanes, repeat the colormap */
         /* This happens when pictures have a stencil mask */
-        if ( nbrcolorsfinal > (1<<bmhd.planes) ) {
-            nbrcolorsfinal = (1<<bmhd.planes);
-        }
         for ( i=nbcolors; i < (Uint32)nbrcolorsfinal; i++ )
         {
             scratch_pal[i].r = scratch_pal[i%nbcolors].r;
@@ -465,8 +494,12 @@ static ILboolean load_ilbm(void)
             scratch_pal[i].b = scratch_pal[i%nbcolors].b;
         }
 
-        if ( !pbm )
-            ilRegisterPal( scratch_pal, 3*nbrcolorsfinal, IL_PAL_RGB24 );
+        ilRegisterPal( scratch_pal, 3*nbrcolorsfinal, IL_PAL_RGB24 );
+        if ( iCurImage->Pal.Palette == NULL )
+        {
+            error=(char*)"not enough memory for the palette";
+            goto done;
+        }
 
     }
 
@@ -536,19 +569,15 @@ static ILboolean load_ilbm(void)
 
         /* One line has been read, store it ! */
 
-        ptr = ilGetData();
-        if ( nbplanes==24 || flagHAM==1 )
-            ptr += h * width * 3;
-        else
-            ptr += h * width;
+        ptr = Line;
 
         if ( pbm )                 /* File format : 'Packed Bitmap' */
         {
-           memcpy( ptr, MiniBuf, width );
+           memcpy( ptr, MiniBuf, bmhd.w );
         }
         else        /* We have to un-interlace the bits ! */
         {
-            if ( nbplanes!=24 && flagHAM==0 )
+            if ( format==IL_COLOUR_INDEX )
             {
                 size = ( width + 7 ) / 8;
 
@@ -556,7 +585,7 @@ static ILboolean load_ilbm(void)
                 {
                     memset( ptr, 0, 8 );
 
-                    for ( plane=0; plane < nbplanes; plane++ )
+                    for ( plane=0; plane < bmhd.planes; plane++ )   /* the mask is not part of the index */
                     {
                         color = *( MiniBuf + i + ( plane * bytesperline ) );
                         msk = 0x80;
@@ -586,9 +615,9 @@ static ILboolean load_ilbm(void)
                         Uint32 pixelcolor = 0;
                         Uint32 maskColor = 1;
                         Uint8 dataBody;
-                        for ( plane=0; plane < nbplanes; plane++ )
+                        for ( plane=0; plane < bmhd.planes; plane++ )   /* without the mask */
                         {
-                            dataBody = MiniBuf[ plane*size+i/8 ];
+                            dataBody = MiniBuf[ plane*bytesperline+i/8 ];
                             if ( dataBody&maskBit )
                                 pixelcolor = pixelcolor | maskColor;
                             maskColor = maskColor<<1;
@@ -597,22 +626,24 @@ static ILboolean load_ilbm(void)
                         /* HAM8 : 18 bits RGB image (6 bits per color component) */
                         if ( flagHAM )
                         {
-                            switch( pixelcolor>>(nbplanes-2) )
+                            Uint32 control = pixelcolor>>(bmhd.planes-2);
+                            pixelcolor = pixelcolor & ((1<<(bmhd.planes-2))-1);
+                            switch( control )
                             {
                                 case 0: /* take direct color from palette */
                                     finalcolor = colormap[ pixelcolor*3 ] + (colormap[ pixelcolor*3+1 ]<<8) + (colormap[ pixelcolor*3+2 ]<<16);
                                     break;
                                 case 1: /* modify only blue component */
                                     finalcolor = finalcolor&0x00FFFF;
-                                    finalcolor = finalcolor | (pixelcolor<<(16+(10-nbplanes)));
+                                    finalcolor = finalcolor | (pixelcolor<<(16+(10-bmhd.planes)));
                                     break;
                                 case 2: /* modify only red component */
                                     finalcolor = finalcolor&0xFFFF00;
-                                    finalcolor = finalcolor | pixelcolor<<(10-nbplanes);
+                                    finalcolor = finalcolor | pixelcolor<<(10-bmhd.planes);
                                     break;
                                 case 3: /* modify only green component */
                                     finalcolor = finalcolor&0xFF00FF;
-                                    finalcolor = finalcolor | (pixelcolor<<(8+(10-nbplanes)));
+                                    finalcolor = finalcolor | (pixelcolor<<(8+(10-bmhd.planes)));
                                     break;
                             }
                         }
@@ -638,11 +669,14 @@ static ILboolean load_ilbm(void)
                 }
             }
         }
+
+        memcpy( ilGetData() + h * iCurImage->Bps, Line, iCurImage->Bps );
     }
 
 done:
 
     if ( MiniBuf ) free( MiniBuf );
+    if ( Line ) free( Line );
 
     if ( error )
     {
-- 
2.43.0


From 7b9c739c2b443ff3f6f669414eb4c5304189349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 138/185] fix: IWI: check the mipmaps against the file

---
 DevIL/src-IL/src/il_iwi.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_iwi.cpp b/DevIL/src-IL/src/il_iwi.cpp
index 5c38621..8e1dcbc 100644
--- a/DevIL/src-IL/src/il_iwi.cpp
+++ b/DevIL/src-IL/src/il_iwi.cpp
@@ -334,7 +334,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT1:
 				// DXT1 data has at least 8 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height / 2, 8);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -361,7 +361,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT3:
 				// DXT3 data has at least 16 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height, 16);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -379,7 +379,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT5:
 				// DXT5 data has at least 16 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height, 16);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -397,6 +397,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 		}
 	
 		ifree(CompData);
+		CompData = NULL;
 	}
 
 	return IL_TRUE;
-- 
2.43.0


From edc8f55979367162f0a1eb25b65b6fd11991d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 139/185] fix: KTX: check keys, levels and dimensions against
 the file

---
 DevIL/src-IL/src/il_ktx.cpp | 53 ++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index 51db2da..fa3ea98 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -333,18 +333,22 @@ ILboolean iLoadKtxInternal()
 		switch (Header.glInternalFormat)
 		{
 			case I_GL_ETC1_RGB8_OES:
-				ILubyte *FullBuffer = (ILubyte*)ialloc(Header.pixelWidth * Header.pixelHeight / 2);
+				ILuint FullSize = ((iCurImage->Width + 3) / 4) * ((iCurImage->Height + 3) / 4) * 8;
+				ILubyte *FullBuffer;
 				ILuint UnpackBuff[16*4];
 				ILuint *Data = (ILuint*)iCurImage->Data;  // Easier copies
 
-				if (FullBuffer == NULL)
-					return IL_FALSE;
-				if (imageSize != Header.pixelWidth * Header.pixelHeight / 2) {
+				if (imageSize != FullSize) {
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
 				}
-				if (iread(FullBuffer, 1, imageSize) != imageSize)
+				FullBuffer = (ILubyte*)ialloc(FullSize);
+				if (FullBuffer == NULL)
+					return IL_FALSE;
+				if (iread(FullBuffer, 1, imageSize) != imageSize) {
+					ifree(FullBuffer);
 					return IL_FALSE;
+				}
 
 				ILuint BlockPos = 0;
 				for (ILuint y = 0; y < iCurImage->Height; y+=4)
@@ -356,9 +360,10 @@ ILboolean iLoadKtxInternal()
 						ILuint c = 0;
 						for (ILuint y1 = 0; y1 < 4; y1++)
 						{
-							for (ILuint x1 = 0; x1 < 4; x1++)
+							for (ILuint x1 = 0; x1 < 4; x1++, c++)
 							{
-								Data[ImagePos + y1*iCurImage->Width + x1] = UnpackBuff[c++];
+								if (y + y1 < iCurImage->Height && x + x1 < iCurImage->Width)
+									Data[ImagePos + y1*iCurImage->Width + x1] = UnpackBuff[c];
 							}
 						}
 						BlockPos += 8;
@@ -393,12 +398,22 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 		return IL_FALSE;
 
 	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData)
+	{
+		ifree(KeyValueData);
 		return IL_FALSE;
+	}
 
 	// Just a very rudimentary check on the origin values
-	while (Pos < bytesOfKeyValueData)
+	while (bytesOfKeyValueData - Pos >= 4)
 	{
-		Length = *((ILuint*)&KeyValueData[Pos]);
+		memcpy(&Length, &KeyValueData[Pos], 4);
+		UInt(&Length);
+		if (Length > bytesOfKeyValueData - Pos - 4)
+		{
+			ifree(KeyValueData);
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		if (Length >= 22)  // Size needed for the KTXorientation key
 		{
 			if (!strncmp((const char*)&KeyValueData[Pos+4], "KTXorientation", 14))
@@ -412,9 +427,11 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 			}
 		}
 
-		Pos += Length;
-		if (Pos >= bytesOfKeyValueData)
+		// Every entry has its length in front and is padded to a multiple of 4 bytes.
+		Length = (Length + 3) & ~3u;
+		if (Length >= bytesOfKeyValueData - Pos - 4)
 			break;
+		Pos += 4 + Length;
 	}
 
 	ifree(KeyValueData);
@@ -450,7 +467,7 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 		else  // Since not dword-aligned, have to read each line separately.
 		{
 			Pos = 0;
-			for (ILuint h = 0; h < Height; h++)
+			for (ILuint h = 0; h < Image->Height; h++)
 			{
 				if (iread(&Image->Data[Pos], 1, Image->Bps) != Image->Bps)
 					return IL_FALSE;
@@ -460,8 +477,8 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 		}
 
 		Image->Origin = Origin;
-		Width = Width / 2;
-		Height = Height / 2;
+		Width = Width / 2 == 0 ? 1 : Width / 2;
+		Height = Height / 2 == 0 ? 1 : Height / 2;
 
 		if (Mip < NumMips - 1)
 		{
@@ -478,13 +495,7 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 
 mip_fail:
 	Image = iCurImage;
-	ILimage *StartImage = Image->Mipmaps, *TempImage;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
+	ilCloseImage(Image->Mipmaps);
 	Image->Mipmaps = NULL;
 	return IL_FALSE;
 }
-- 
2.43.0


From f8d6be56c1d39aabe82a53ab9ec9964e5330c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 140/185] fix: MDL: check offsets and dimensions, textures
 after the first

---
 DevIL/src-IL/src/il_mdl.cpp | 45 ++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 530825b..ba94a23 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -129,7 +129,7 @@ ILboolean iLoadMdlInternal()
 	ILuint		Id, Version, NumTex, TexOff, TexDataOff, Position, ImageNum;
 	ILubyte		*TempPal;
 	TEX_HEAD	TexHead;
-	ILimage		*BaseImage=NULL;
+	ILimage		*BaseImage = iCurImage;
 	ILboolean	BaseCreated = IL_FALSE;
 
 	if (iCurImage == NULL) {
@@ -162,49 +162,54 @@ ILboolean iLoadMdlInternal()
 
 	for (ImageNum = 0; ImageNum < NumTex; ImageNum++) {
 		if (iread(TexHead.Name, 1, 64) != 64)
-			return IL_FALSE;
+			goto error;
 		TexHead.Flags = GetLittleUInt();
 		TexHead.Width = GetLittleUInt();
 		TexHead.Height = GetLittleUInt();
 		TexHead.Offset = GetLittleUInt();
 		Position = itell();
 
-		if (TexHead.Offset == 0) {
+		// The pixels have to be in the file, which also bounds the memory that they need.
+		if (TexHead.Offset == 0 || TexHead.Width == 0 || TexHead.Height == 0 ||
+			TexHead.Width > IL_MAX_UNSIGNED_INT / TexHead.Height) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
+			goto error;
+		}
+		iseek(TexHead.Offset, IL_SEEK_SET);
+		if (TexHead.Width * TexHead.Height > iBytesLeft()) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto error;
 		}
 
 		if (!BaseCreated) {
-			ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+				goto error;
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			BaseCreated = IL_TRUE;
-			BaseImage = iCurImage;
-			//iCurImage->NumNext = NumTex - 1;  // Don't count the first image.
 		}
 		else {
-			//iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			iCurImage->Next = ilNewImageFull(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
+			if (iCurImage->Next == NULL)
+				goto error;
 			iCurImage = iCurImage->Next;
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Type = IL_UNSIGNED_BYTE;
+			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		}
 
 		TempPal	= (ILubyte*)ialloc(768);
-		if (TempPal == NULL) {
-			iCurImage = BaseImage;
-			return IL_FALSE;
-		}
+		if (TempPal == NULL)
+			goto error;
 		iCurImage->Pal.Palette = TempPal;
 		iCurImage->Pal.PalSize = 768;
 		iCurImage->Pal.PalType = IL_PAL_RGB24;
 
-		iseek(TexHead.Offset, IL_SEEK_SET);
 		if (iread(iCurImage->Data, TexHead.Width * TexHead.Height, 1) != 1)
-			return IL_FALSE;
+			goto error;
 		if (iread(iCurImage->Pal.Palette, 1, 768) != 768)
-			return IL_FALSE;
+			goto error;
 
 		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+			if (!ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE))
+				goto error;
 		}
 
 		iseek(Position, IL_SEEK_SET);
@@ -213,6 +218,10 @@ ILboolean iLoadMdlInternal()
 	iCurImage = BaseImage;
 
 	return ilFixImage();
+
+error:
+	iCurImage = BaseImage;
+	return IL_FALSE;
 }
 
 #endif//IL_NO_MDL
-- 
2.43.0


From 915b4b2683331ae8883da842b4b47a6a6ae8d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 141/185] fix: MP3: walk the frames within the tag

---
 DevIL/src-IL/src/il_mp3.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_mp3.cpp b/DevIL/src-IL/src/il_mp3.cpp
index e7dab69..d8cc1e9 100755
--- a/DevIL/src-IL/src/il_mp3.cpp
+++ b/DevIL/src-IL/src/il_mp3.cpp
@@ -165,7 +165,7 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 					break;
 			}
 			// The MimeType must be terminated by 0 in the file by the specs.
-			if (MimeType[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			if (!strcmp((char*)MimeType, "image/jpeg"))
 				Type = MP3_JPG;
@@ -182,11 +182,14 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 				if (Description[i] == 0)
 					break;
 			}
-			if (Description[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			return Type;
 		}
 		else {
+			// Cannot skip more than there is (nor go backwards, as iseek takes a signed offset).
+			if (FrameSize > iBytesLeft())
+				return MP3_NONE;
 			iseek(FrameSize, IL_SEEK_CUR);
 		}
 
@@ -252,8 +255,10 @@ ILboolean iLoadMp3Internal(void)
 
 	if (!iGetMp3Head(&Header))
 		return IL_FALSE;
-	if (!iCheckMp3(&Header))
+	if (!iCheckMp3(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 	Type = iFindMp3Pic(&Header);
 	
 	switch (Type)
-- 
2.43.0


From c8ace862538a78ca6148826a3f6d929092a0fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 142/185] fix: PIC: runs beyond the row, missing packets

---
 DevIL/src-IL/include/il_pic.h |  2 +-
 DevIL/src-IL/src/il_pic.cpp   | 32 ++++++++++++++++++++------------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/include/il_pic.h b/DevIL/src-IL/include/il_pic.h
index eccec72..852cf4b 100644
--- a/DevIL/src-IL/include/il_pic.h
+++ b/DevIL/src-IL/include/il_pic.h
@@ -68,7 +68,7 @@ typedef struct CHANNEL
 ILboolean iIsValidPic(void);
 ILboolean iCheckPic(PIC_HEAD *Header);
 ILboolean iLoadPicInternal(void);
-ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha);
+ILboolean readScanlines(ILubyte *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha);
 ILuint    readScanline(ILubyte *scan, ILint width, CHANNEL *channel,  ILint bytes);
 ILboolean channelReadRaw(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
 ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index 52e9621..3492428 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -161,7 +161,7 @@ ILboolean ilLoadPicL(const void *Lump, ILuint Size)
 // Internal function used to load the .pic
 ILboolean iLoadPicInternal()
 {
-	ILuint		Alpha = IL_FALSE;
+	ILuint		Alpha = IL_FALSE, NumChannels = 0;
 	ILubyte		Chained;
 	CHANNEL		*Channel = NULL, *Channels = NULL, *Prev;
 	PIC_HEAD	Header;
@@ -206,6 +206,13 @@ ILboolean iLoadPicInternal()
 		Channels->Type = igetc();
 		Channels->Chan = igetc();
 		if (ieof()) {
+			ilSetError(IL_FILE_READ_ERROR);
+			Read = IL_FALSE;
+			goto finish;
+		}
+		// There are only eight possible channels, so a packet list cannot be longer than that.
+		if (++NumChannels > 8) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			Read = IL_FALSE;
 			goto finish;
 		}
@@ -230,7 +237,7 @@ ILboolean iLoadPicInternal()
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	Read = readScanlines((ILuint*)iCurImage->Data, Header.Width, Header.Height, Channel, Alpha);
+	Read = readScanlines(iCurImage->Data, Header.Width, Header.Height, Channel, Alpha);
 
 finish:
 	// Destroy channels
@@ -247,17 +254,15 @@ finish:
 }
 
 
-ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
+ILboolean readScanlines(ILubyte *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
 {
-	ILint	i;
-	ILuint	*scan;
+	ILint	i, bytes = alpha ? 4 : 3;
+	ILubyte	*scan;
 
-	(void)alpha;
-	
 	for (i = height - 1; i >= 0; i--) {
-		scan = image + i * width;
+		scan = image + (size_t)i * width * bytes;
 
-		if (!readScanline((ILubyte *)scan, width, channel, alpha ? 4 : 3)) {
+		if (!readScanline(scan, width, channel, bytes)) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
@@ -306,6 +311,9 @@ ILuint readScanline(ILubyte *scan, ILint width, CHANNEL *channel, ILint bytes)
 			case PIC_MIXED_RUN_LENGTH:
 				status = channelReadMixed(scan, width, noCol, off, bytes);
 				break;
+			default:  // Unknown compression
+				status = IL_FALSE;
+				break;
 		}
 		if (!status)
 			break;
@@ -342,8 +350,8 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		count = igetc();
 		if (count == IL_EOF)
 			return IL_FALSE;
-		if (count > width)
-			count = width;
+		if (count > i)  // Cannot go past the end of the scanline.
+			count = i;
 		i -= count;
 		
 		if (ieof())
@@ -355,7 +363,7 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		
 		for (k = 0; k < count; k++, scan += bytes) {
 			for(j = 0; j < noCol; j++)
-				scan[off[j] + k] = col[j];
+				scan[off[j]] = col[j];
 		}
 	}
 	return IL_TRUE;
-- 
2.43.0


From 180e92b89731f80fd58aff996a48f56c036a0e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 143/185] fix: PIX: runs beyond the image

---
 DevIL/src-IL/src/il_pix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_pix.cpp b/DevIL/src-IL/src/il_pix.cpp
index 31860fb..b44d992 100644
--- a/DevIL/src-IL/src/il_pix.cpp
+++ b/DevIL/src-IL/src/il_pix.cpp
@@ -148,7 +148,7 @@ ILboolean iLoadPixInternal()
 		ByteHead = igetc();
 		if (iread(Colour, 1, 3) != 3)
 			return IL_FALSE;
-		for (j = 0; j < ByteHead; j++) {
+		for (j = 0; j < ByteHead && i < iCurImage->SizeOfData; j++) {
 			iCurImage->Data[i++] = Colour[0];
 			iCurImage->Data[i++] = Colour[1];
 			iCurImage->Data[i++] = Colour[2];
-- 
2.43.0


From 3fe358a68e90ad82a9534adce94d5ba17e69f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 144/185] fix: TPL: check offsets and palettes, pad tiles,
 chain of textures, layout of RGB4A3

---
 DevIL/src-IL/src/il_tpl.cpp | 468 ++++++++++++++----------------------
 1 file changed, 177 insertions(+), 291 deletions(-)

diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index e93e7a1..260a7ee 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -53,6 +53,8 @@ ILboolean iIsValidTpl(void);
 ILboolean iCheckTpl(TPLHEAD *Header);
 ILboolean iLoadTplInternal(void);
 ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat);
+ILboolean TplGetTiles(ILimage *Image, ILuint DataFormat, ILuint PalFormat);
+ILuint    TplTileDims(ILuint DataFormat, ILuint *TileW, ILuint *TileH);
 
 
 //! Checks if the file specified in FileName is a valid TPL file.
@@ -195,10 +197,10 @@ ILboolean iLoadTplInternal(void)
 	TPLHEAD		Header;
 	ILimage		*Image/*, *BaseImage*/;
 	ILuint		Pos, TexOff, PalOff, DataFormat, Bpp, DataOff, WrapS, WrapT;
-	ILuint		x, y, xBlock, yBlock, i, j, k, n;
+	ILuint		x, y, xBlock, yBlock, i, j, k, n, TileW, TileH, TileSize;
 	ILenum		Format;
-	ILushort	Width, Height, ShortPixel;
-	ILubyte		BytePixel, CompData[8];
+	ILushort	Width, Height;
+	ILubyte		CompData[8];
 	Color8888	colours[4], *col;
 	ILushort	color_0, color_1;
 	ILuint		bitmask, Select;
@@ -225,15 +227,17 @@ ILboolean iLoadTplInternal(void)
 		TexOff = GetBigUInt();
 		PalOff = GetBigUInt();
 		// Go to the texture header.
-		if (iseek(TexOff, IL_SEEK_SET))
+		if (iseek(TexOff, IL_SEEK_SET)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
+		}
 
 		Height = GetBigUShort();
 		Width = GetBigUShort();
 		// It looks like files actually have n-1 images, with the nth one having 0 height and width.
 		if (Width == 0 || Height == 0) {
 			// If this is our first image, however, we error out.
-			if (Image == iCurImage) {
+			if (n == 0) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
 			}
@@ -254,8 +258,10 @@ ILboolean iLoadTplInternal(void)
 		}
 
 		// Go to the actual texture data.
-		if (iseek(TexOff, IL_SEEK_SET))
+		if (iseek(TexOff, IL_SEEK_SET)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
+		}
 
 		switch (DataFormat)
 		{
@@ -267,7 +273,7 @@ ILboolean iLoadTplInternal(void)
 			case TPL_IA4:
 			case TPL_IA8:
 				Format = IL_LUMINANCE_ALPHA;
-				Bpp = 1;
+				Bpp = 2;
 				break;
 			case TPL_RGB565:
 				Format = IL_RGB;
@@ -288,7 +294,7 @@ ILboolean iLoadTplInternal(void)
 				break;
 			case TPL_CI14X2:
 				Format = IL_RGBA;
-				Bpp = 3;
+				Bpp = 4;
 				break;
 			case TPL_CMP:
 				Format = IL_RGBA;
@@ -300,7 +306,14 @@ ILboolean iLoadTplInternal(void)
 				return IL_FALSE;
 		}
 
-		if (Image == iCurImage) {  // This is our first image.
+		// All tiles have to be in the file, which also bounds the memory that they need.
+		TileSize = TplTileDims(DataFormat, &TileW, &TileH);
+		if ((ILuint64)((Width + TileW - 1) / TileW) * ((Height + TileH - 1) / TileH) * TileSize > iBytesLeft()) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
+
+		if (n == 0) {  // This is our first image.
 			if (!ilTexImage(Width, Height, 1, Bpp, Format, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 		}
@@ -315,207 +328,24 @@ ILboolean iLoadTplInternal(void)
 		switch (DataFormat)
 		{
 			case TPL_I4:
-				// 8x8 tiles of 4-bit intensity values
-				for (y = 0; y < Image->Height; y += 8) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 8; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock += 2) {
-								BytePixel = igetc();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-								DataOff++;
-								// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-								DataOff++;
-							}
-						}
-					}
-				}
-				break;
-
 			case TPL_I8:
-				// 8x4 tiles of 8-bit intensity values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									igetc();  // Skip the pad byte.
-									continue;
-								}
-								Image->Data[DataOff] = igetc();  // Luminance value
-								DataOff++;
-							}
-						}
-					}
-				}
-				break;
-
 			case TPL_IA4:
-				// 8x4 tiles of 4-bit intensity and 4-bit alpha values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock += 2) {
-								BytePixel = igetc();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-								Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-								DataOff += 2;
-							}
-						}
-					}
-				}
-				break;
-
 			case TPL_IA8:
-				// 4x4 tiles of 8-bit intensity and 8-bit alpha values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock += 2) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip the pad bytes.
-									continue;
-								}
-								Image->Data[DataOff] = igetc();
-								Image->Data[DataOff+1] = igetc();
-								DataOff += 2;
-							}
-						}
-					}
-				}
-				break;
-
 			case TPL_RGB565:
-				// 4x4 tiles of RGB565 data
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								ShortPixel = GetBigUShort();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = ((ShortPixel & 0xF800) >> 8) | ((ShortPixel & 0xE000) >> 13); // Red
-								Image->Data[DataOff+1] = ((ShortPixel & 0x7E0) >> 3) | ((ShortPixel & 0x600) >> 9); // Green
-								Image->Data[DataOff+2] = ((ShortPixel & 0x1f) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-								DataOff += 3;
-							}
-						}
-					}
-				}
-				break;
-
 			case TPL_RGB5A3:
-				// 4x4 tiles of either RGB5 or RGB4A3 depending on the MSB. 0x80
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								ShortPixel = GetBigUShort();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-
-								if (ShortPixel & 0x8000) {  // Check MSB.
-									// We have RGB5.
-									Image->Data[DataOff] = ((ShortPixel & 0x7C00) >> 7) | ((ShortPixel & 0x7000) >> 12); // Red
-									Image->Data[DataOff+1] = ((ShortPixel & 0x3E0) >> 2) | ((ShortPixel & 0x380) >> 7); // Green
-									Image->Data[DataOff+2] = ((ShortPixel & 0x1F) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-									Image->Data[DataOff+3] = 0xFF;  // I am just assuming that it is opaque.
-								}
-								else {
-									// We have RGB4A3.
-									Image->Data[DataOff] = ((ShortPixel & 0x7800) >> 7) | ((ShortPixel & 0x7800) >> 11); // Red
-									Image->Data[DataOff+1] = ((ShortPixel & 0x0780) >> 3) | ((ShortPixel & 0x0780) >> 7); // Green
-									Image->Data[DataOff+2] = ((ShortPixel & 0x0078) << 1) | ((ShortPixel & 0x0078) >> 3); // Blue
-									Image->Data[DataOff+3] = ((ShortPixel & 0x07) << 5) | ((ShortPixel & 0x07) << 2) | (ShortPixel >> 1); // Alpha
-								}
-								DataOff += 3;
-							}
-						}
-					}
-				}
-				break;
-
 			case TPL_RGBA8:
-				// 4x4 tiles of RGBA data
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							// Skip pad bytes at the bottom of the tile if any.
-							if ((y + yBlock) >= Image->Height) {
-								iseek(16, IL_SEEK_CUR);  // Entire row of pad bytes skipped
-								continue;
-							}
-
-							// First it has the AR data.
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
-									continue;
-								}
-								Image->Data[DataOff+3] = igetc();  // Alpha
-								Image->Data[DataOff] = igetc();  // Red
-								DataOff += 3;
-							}
-
-							// Then it has the GB data.
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4 && x + xBlock < Image->Width; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
-									continue;
-								}
-								Image->Data[DataOff+1] = igetc();  // Green
-								Image->Data[DataOff+2] = igetc();  // Blue
-								DataOff += 3;
-							}
-						}
-					}
-				}
+				if (!TplGetTiles(Image, DataFormat, 0))
+					return IL_FALSE;
 				break;
 
 			case TPL_CI4:
 			case TPL_CI8:
 			case TPL_CI14X2:
 				// Seek to the palette header.
-				if (iseek(PalOff, IL_SEEK_SET))
+				if (iseek(PalOff, IL_SEEK_SET)) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
+				}
 				if (!TplGetIndexImage(Image, TexOff, DataFormat))
 					return IL_FALSE;
 				break;
@@ -600,9 +430,8 @@ ILboolean iLoadTplInternal(void)
 ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 {
 	ILushort	NumPal, ShortPixel;
-	ILubyte		LumVal, BytePixel;
-	ILuint		PalFormat, PalOff, PalBpp, DataOff;
-	ILuint		x, y, xBlock, yBlock, i;
+	ILubyte		LumVal;
+	ILuint		PalFormat, PalOff, i;
 
 	NumPal = GetBigUShort();
 	iseek(2, IL_SEEK_CUR);  // Do we need to do anything with the 'unpacked' entry?  I see nothing in the specs about it.
@@ -611,8 +440,16 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 	// Now we have to find out where the actual palette data is stored.
 	//@TODO: Do we need to set any errors here?
 	PalOff = GetBigUInt();
-	if (iseek(PalOff, IL_SEEK_SET))
+	if (iseek(PalOff, IL_SEEK_SET)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
+
+	// Every palette entry takes two bytes.
+	if (NumPal == 0 || NumPal * 2u > iBytesLeft()) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
 	switch (PalFormat)
 	{
@@ -622,7 +459,6 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 				return IL_FALSE;
 			Image->Pal.PalType = IL_PAL_RGBA32;  //@TODO: Use this format natively.
 			Image->Pal.PalSize = NumPal * 4;
-			PalBpp = 4;
 
 			for (i = 0; i < NumPal; i++) {
 				LumVal = igetc();
@@ -640,7 +476,6 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 				return IL_FALSE;
 			Image->Pal.PalType = IL_PAL_RGB24;
 			Image->Pal.PalSize = NumPal * 3;
-			PalBpp = 3;
 
 			for (i = 0; i < NumPal; i++) {
 				ShortPixel = GetBigUShort();
@@ -657,7 +492,6 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 				return IL_FALSE;
 			Image->Pal.PalType = IL_PAL_RGBA32;
 			Image->Pal.PalSize = NumPal * 4;
-			PalBpp = 4;
 
 			for (i = 0; i < NumPal; i++) {
 				ShortPixel = GetBigUShort();
@@ -671,10 +505,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 				}
 				else {
 					// We have RGB4A3.
-					Image->Pal.Palette[i*4] = ((ShortPixel & 0x7800) >> 7) | ((ShortPixel & 0x7800) >> 11); // Red
-					Image->Pal.Palette[i*4+1] = ((ShortPixel & 0x0780) >> 3) | ((ShortPixel & 0x0780) >> 7); // Green
-					Image->Pal.Palette[i*4+2] = ((ShortPixel & 0x0078) << 1) | ((ShortPixel & 0x0078) >> 3); // Blue
-					Image->Pal.Palette[i*4+3] = ((ShortPixel & 0x07) << 5) | ((ShortPixel & 0x07) << 2) | (ShortPixel >> 1); // Alpha
+					Image->Pal.Palette[i*4] = ((ShortPixel & 0x0F00) >> 4) | ((ShortPixel & 0x0F00) >> 8); // Red
+					Image->Pal.Palette[i*4+1] = (ShortPixel & 0x00F0) | ((ShortPixel & 0x00F0) >> 4); // Green
+					Image->Pal.Palette[i*4+2] = ((ShortPixel & 0x000F) << 4) | (ShortPixel & 0x000F); // Blue
+					Image->Pal.Palette[i*4+3] = ((ShortPixel & 0x7000) >> 7) | ((ShortPixel & 0x7000) >> 10) | ((ShortPixel & 0x7000) >> 13); // Alpha
 				}
 			}
 			break;
@@ -685,104 +519,156 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 	}
 
 	// Go back to the texture data.
-	if (iseek(TexOff, IL_SEEK_SET))
+	if (iseek(TexOff, IL_SEEK_SET)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
+
+	if (!TplGetTiles(Image, DataFormat, PalFormat))
+		return IL_FALSE;
+
+	if (DataFormat == TPL_CI14X2) {
+		// Get rid of the palette, since we no longer need it.
+		ifree(Image->Pal.Palette);
+		Image->Pal.Palette = NULL;
+		Image->Pal.PalType = IL_PAL_NONE;
+		Image->Pal.PalSize = 0;
+	}
+
+	return IL_TRUE;
+}
 
+
+// Gives the dimensions (in pixels) and the size (in bytes) of the tiles of a data format.
+ILuint TplTileDims(ILuint DataFormat, ILuint *TileW, ILuint *TileH)
+{
 	switch (DataFormat)
 	{
+		case TPL_I4:
 		case TPL_CI4:
-			// 8x8 tiles of 4-bit color indices
-			//  This is the exact same code as the TPL_I4 case.
-			for (y = 0; y < Image->Height; y += 8) {
-				for (x = 0; x < Image->Width; x += 8) {
-					for (yBlock = 0; yBlock < 8; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 8; xBlock += 2) {
-							BytePixel = igetc();
-							if ((x + xBlock) >= Image->Width)
-								continue;  // Already read the pad byte.
-							Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-							DataOff++;
-							// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-							if ((x + xBlock) >= Image->Width)
-								continue;  // Already read the pad byte.
-							Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-							DataOff++;
-						}
-					}
-				}
-			}
-			break;
-
+		case TPL_CMP:
+			*TileW = 8;
+			*TileH = 8;
+			return 32;
+		case TPL_I8:
+		case TPL_IA4:
 		case TPL_CI8:
-			// 8x4 tiles of 8-bit intensity values
-			//  This is the exact same code as the TPL_I8 case.
-			for (y = 0; y < Image->Height; y += 4) {
-				for (x = 0; x < Image->Width; x += 8) {
-					for (yBlock = 0; yBlock < 4; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 8; xBlock++) {
-							if ((x + xBlock) >= Image->Width) {
-								igetc();  // Skip the pad byte.
-								continue;
-							}
-							Image->Data[DataOff] = igetc();  // Color index
-							DataOff++;
-						}
-					}
-				}
-			}
-			break;
+			*TileW = 8;
+			*TileH = 4;
+			return 32;
+		case TPL_RGBA8:
+			*TileW = 4;
+			*TileH = 4;
+			return 64;
+	}
 
+	*TileW = 4;
+	*TileH = 4;
+	return 32;
+}
 
-		//@TODO: Convert to more formats than just RGBA.
-		case TPL_CI14X2:
-			// 4x4 tiles of 14-bit indices into a palette.  Not supported at all in DevIL, since
-			//  it has a huge palette (> 256 colors).  Convert to RGBA.
-			for (y = 0; y < Image->Height; y += 4) {
-				for (x = 0; x < Image->Width; x += 4) {
-					for (yBlock = 0; yBlock < 4; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 4; xBlock++) {
-							if ((x + xBlock) >= Image->Width) {
-								GetBigUShort();  // Skip the pad short.
-								continue;
+
+// Reads the tiles of all formats but TPL_CMP.  Tiles are always complete in the file, so
+//  the pixels outside of the image are skipped.
+ILboolean TplGetTiles(ILimage *Image, ILuint DataFormat, ILuint PalFormat)
+{
+	ILubyte		Tile[128], *Src, *Dest;
+	ILuint		x, y, xBlock, yBlock, TileW, TileH, TileSize, Pixel, PalBpp;
+	ILushort	ShortPixel;
+
+	TileSize = TplTileDims(DataFormat, &TileW, &TileH);
+	PalBpp = PalFormat == TPL_PAL_RGB565 ? 3 : 4;
+
+	for (y = 0; y < Image->Height; y += TileH) {
+		for (x = 0; x < Image->Width; x += TileW) {
+			if (iread(Tile, 1, TileSize) != TileSize)
+				return IL_FALSE;
+
+			for (yBlock = 0; yBlock < TileH && y + yBlock < Image->Height; yBlock++) {
+				for (xBlock = 0; xBlock < TileW && x + xBlock < Image->Width; xBlock++) {
+					Dest = Image->Data + Image->Bps * (y + yBlock) + Image->Bpp * (x + xBlock);
+					Pixel = yBlock * TileW + xBlock;  // Number of the pixel in the tile
+					Src = Tile + Pixel * 2;
+					ShortPixel = TileW == 4 ? (Src[0] << 8) | Src[1] : 0;  // Only the 16-bit formats need this.
+
+					switch (DataFormat)
+					{
+						case TPL_I4:  // 8x8 tiles of 4-bit intensity values
+							Src = Tile + Pixel / 2;
+							Dest[0] = (Pixel & 1) ? (*Src & 0x0F) << 4 | (*Src & 0x0F) : (*Src & 0xF0) | (*Src & 0xF0) >> 4;
+							break;
+
+						case TPL_CI4:  // 8x8 tiles of 4-bit color indices
+							Src = Tile + Pixel / 2;
+							Dest[0] = (Pixel & 1) ? (*Src & 0x0F) : (*Src >> 4);
+							break;
+
+						case TPL_I8:  // 8x4 tiles of 8-bit intensity values
+						case TPL_CI8:  // 8x4 tiles of 8-bit color indices
+							Dest[0] = Tile[Pixel];
+							break;
+
+						case TPL_IA4:  // 8x4 tiles of 4-bit intensity and 4-bit alpha values
+							Dest[0] = (Tile[Pixel] & 0xF0) | (Tile[Pixel] & 0xF0) >> 4;
+							Dest[1] = (Tile[Pixel] & 0x0F) << 4 | (Tile[Pixel] & 0x0F);
+							break;
+
+						case TPL_IA8:  // 4x4 tiles of 8-bit intensity and 8-bit alpha values
+							Dest[0] = Src[0];
+							Dest[1] = Src[1];
+							break;
+
+						case TPL_RGB565:  // 4x4 tiles of RGB565 data
+							Dest[0] = ((ShortPixel & 0xF800) >> 8) | ((ShortPixel & 0xE000) >> 13); // Red
+							Dest[1] = ((ShortPixel & 0x7E0) >> 3) | ((ShortPixel & 0x600) >> 9); // Green
+							Dest[2] = ((ShortPixel & 0x1f) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
+							break;
+
+						case TPL_RGB5A3:  // 4x4 tiles of either RGB5 or RGB4A3 depending on the MSB
+							if (ShortPixel & 0x8000) {  // We have RGB5.
+								Dest[0] = ((ShortPixel & 0x7C00) >> 7) | ((ShortPixel & 0x7000) >> 12); // Red
+								Dest[1] = ((ShortPixel & 0x3E0) >> 2) | ((ShortPixel & 0x380) >> 7); // Green
+								Dest[2] = ((ShortPixel & 0x1F) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
+								Dest[3] = 0xFF;  // I am just assuming that it is opaque.
 							}
-							ShortPixel = GetBigUShort();
+							else {  // We have RGB4A3.
+								Dest[0] = ((ShortPixel & 0x0F00) >> 4) | ((ShortPixel & 0x0F00) >> 8); // Red
+								Dest[1] = (ShortPixel & 0x00F0) | ((ShortPixel & 0x00F0) >> 4); // Green
+								Dest[2] = ((ShortPixel & 0x000F) << 4) | (ShortPixel & 0x000F); // Blue
+								Dest[3] = ((ShortPixel & 0x7000) >> 7) | ((ShortPixel & 0x7000) >> 10) | ((ShortPixel & 0x7000) >> 13); // Alpha
+							}
+							break;
+
+						case TPL_RGBA8:  // 4x4 tiles, with the AR data of a row followed by its GB data
+							Src = Tile + yBlock * 16 + xBlock * 2;
+							Dest[3] = Src[0];
+							Dest[0] = Src[1];
+							Dest[1] = Src[8];
+							Dest[2] = Src[9];
+							break;
+
+						//@TODO: Convert to more formats than just RGBA.
+						case TPL_CI14X2:
+							// 4x4 tiles of 14-bit indices into a palette.  Not supported at all in DevIL, since
+							//  it has a huge palette (> 256 colors).  Convert to RGBA.
 							ShortPixel >>= 2;  // Lower 2 bits are padding bits.
-							Image->Data[DataOff] = Image->Pal.Palette[ShortPixel * PalBpp];
-							Image->Data[DataOff+1] = Image->Pal.Palette[ShortPixel * PalBpp + 1];
-							Image->Data[DataOff+2] = Image->Pal.Palette[ShortPixel * PalBpp + 2];
-							if (PalFormat == TPL_PAL_RGB565)
-								Image->Data[DataOff+3] = 0xFF;
-							else
-								Image->Data[DataOff+3] = Image->Pal.Palette[ShortPixel * PalBpp + 3];
-							DataOff++;
-						}
+							if ((ShortPixel + 1u) * PalBpp > Image->Pal.PalSize) {
+								ilSetError(IL_ILLEGAL_FILE_VALUE);
+								return IL_FALSE;
+							}
+							Src = Image->Pal.Palette + ShortPixel * PalBpp;
+							Dest[0] = Src[0];
+							Dest[1] = Src[1];
+							Dest[2] = Src[2];
+							Dest[3] = PalFormat == TPL_PAL_RGB565 ? 0xFF : Src[3];
+							break;
 					}
 				}
 			}
-			// Get rid of the palette, since we no longer need it.
-			ifree(Image->Pal.Palette);
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalType = IL_PAL_NONE;
-			Image->Pal.PalSize = 0;
-			break;
-
+		}
 	}
 
 	return IL_TRUE;
 }
+
 #endif//IL_NO_TPL
-- 
2.43.0


From 7d6576f5ca03580b63977c3db8d157cb47066275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 145/185] fix: UTX: check tables, names and data against the
 file

---
 DevIL/src-IL/src/il_utx.cpp | 136 +++++++++++++++++++++++++-----------
 1 file changed, 97 insertions(+), 39 deletions(-)

diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 4bd71ba..d733e73 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -44,14 +44,7 @@ ILboolean ilLoadUtxF(ILHANDLE File)
 	
 	iSetInputFile(File);
 	FirstPos = itell();
-	try {
-		bRet = iLoadUtxInternal();
-	}
-	catch (bad_alloc &e) {
-		e;
-		ilSetError(IL_OUT_OF_MEMORY);
-		return IL_FALSE;
-	}
+	bRet = iLoadUtxInternal();
 	iseek(FirstPos, IL_SEEK_SET);
 	
 	return bRet;
@@ -61,14 +54,7 @@ ILboolean ilLoadUtxF(ILHANDLE File)
 //! Reads from a memory "lump" that contains a UTX
 ILboolean ilLoadUtxL(const void *Lump, ILuint Size)
 {
-	try {
-		iSetInputLump(Lump, Size);
-	}
-	catch (bad_alloc &e) {
-		e;
-		ilSetError(IL_OUT_OF_MEMORY);
-		return IL_FALSE;
-	}
+	iSetInputLump(Lump, Size);
 	return iLoadUtxInternal();
 }
 
@@ -107,13 +93,13 @@ string GetUtxName(UTXHEADER &Header)
 {
 #define NAME_MAX_LEN 256  //@TODO: Figure out if these can possibly be longer.
 	char	Name[NAME_MAX_LEN];
-	ILubyte	Length = 0;
+	ILuint	Length = 0;
 
 	// New style (Unreal Tournament) name.  This has a byte at the beginning telling
 	//  how long the string is (plus terminating 0), followed by the terminating 0. 
 	if (Header.Version >= 64) {
-		Length = igetc();
-		if (iread(Name, Length, 1) != 1)
+		Length = (ILubyte)igetc();
+		if (Length == 0 || iread(Name, Length, 1) != 1)
 			return "";
 		if (Name[Length-1] != 0)
 			return "";
@@ -127,7 +113,7 @@ string GetUtxName(UTXHEADER &Header)
 	} while (!ieof() && Name[Length-1] != 0 && Length < NAME_MAX_LEN);
 
 	// Never reached the terminating 0.
-	if (Length == NAME_MAX_LEN && Name[Length-1] != 0)
+	if (Name[Length-1] != 0)
 		return "";
 
 	return string(Name);
@@ -142,6 +128,11 @@ bool GetUtxNameTable(vector <UTXENTRYNAME> &NameEntries, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.NameOffset, IL_SEEK_SET);
 
+	// Each name takes at least six bytes in the file.
+	if (Header.NameCount > iBytesLeft() / 6 + 1) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return false;
+	}
 	NameEntries.resize(Header.NameCount);
 
 	// Read in the name table.
@@ -174,7 +165,7 @@ bool GetUtxNameTable(vector <UTXENTRYNAME> &NameEntries, UTXHEADER &Header)
 /// this, but this is fast, and it works.</remarks>
 ILint UtxReadCompactInteger()
 {
-        int output = 0;
+        ILuint output = 0;
         ILboolean sign = IL_FALSE;
 		int i;
 		ILubyte x;
@@ -212,8 +203,8 @@ ILint UtxReadCompactInteger()
         }
         // multiply by negative one here, since the first 6+ bits could be 0
         if (sign)
-                output *= -1;
-        return output;
+                output = 0 - output;
+        return (ILint)output;
 }
 
 
@@ -242,6 +233,12 @@ bool GetUtxExportTable(vector <UTXEXPORTTABLE> &ExportTable, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.ExportOffset, IL_SEEK_SET);
 
+	// Each entry takes at least 13 bytes in the file.
+	if (Header.ExportCount > iBytesLeft() / 13) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return false;
+	}
+
 	// Create ExportCount elements in our array.
 	ExportTable.resize(Header.ExportCount);
 
@@ -270,6 +267,12 @@ bool GetUtxImportTable(vector <UTXIMPORTTABLE> &ImportTable, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.ImportOffset, IL_SEEK_SET);
 
+	// Each entry takes at least seven bytes in the file.
+	if (Header.ImportCount > iBytesLeft() / 7) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return false;
+	}
+
 	// Allocate the name table.
 	ImportTable.resize(Header.ImportCount);
 
@@ -323,8 +326,37 @@ ILuint UtxFormatToBpp(ILuint Format)
 }
 
 
+// Gives the name of the class of an entry of the export table, or "" if it does not have any.
+static const char *UtxClassName(vector <UTXENTRYNAME> &NameEntries, vector <UTXIMPORTTABLE> &ImportTable, UTXEXPORTTABLE &Export)
+{
+	ILuint	Class = (ILuint)Export.Class, Name;
+
+	if (Class >= ImportTable.size())
+		return "";
+	Name = (ILuint)ImportTable[Class].ObjectName;
+	if (Name >= NameEntries.size())
+		return "";
+	return NameEntries[Name].Name.c_str();
+}
+
+
+static ILboolean iLoadUtxTables(void);
+
 // Internal function used to load the UTX.
 ILboolean iLoadUtxInternal(void)
+{
+	// The tables use the C++ containers, which throw.
+	try {
+		return iLoadUtxTables();
+	}
+	catch (bad_alloc &) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
+}
+
+
+static ILboolean iLoadUtxTables(void)
 {
 	UTXHEADER		Header;
 	vector <UTXENTRYNAME> NameEntries;
@@ -335,12 +367,13 @@ ILboolean iLoadUtxInternal(void)
 	ILuint		NumPal = 0, i, j = 0;
 	ILint		Name;
 	ILubyte		Type;
-	ILint		Val;
+	ILint		Val = 0;
 	ILint		Size;
 	ILint		Width, Height, PalEntry;
 	ILboolean	BaseCreated = IL_FALSE, HasPal;
 	ILint		Format;
 	ILubyte		*CompData = NULL;
+	ILuint		CompSize;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -349,8 +382,10 @@ ILboolean iLoadUtxInternal(void)
 
 	if (!GetUtxHead(Header))
 		return IL_FALSE;
-	if (!CheckUtxHead(Header))
+	if (!CheckUtxHead(Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	// We grab the name table.
 	if (!GetUtxNameTable(NameEntries, Header))
@@ -364,7 +399,7 @@ ILboolean iLoadUtxInternal(void)
 
 	// Find the number of palettes in the export table.
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette")
+		if (!strcmp(UtxClassName(NameEntries, ImportTable, ExportTable[i]), "Palette"))
 			NumPal++;
 	}
 	Palettes.resize(NumPal);
@@ -372,11 +407,15 @@ ILboolean iLoadUtxInternal(void)
 	// Read in all of the palettes.
 	NumPal = 0;
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette") {
+		if (!strcmp(UtxClassName(NameEntries, ImportTable, ExportTable[i]), "Palette")) {
 			Palettes[NumPal].Name = i;
-			iseek(ExportTable[NumPal].SerialOffset, IL_SEEK_SET);
+			iseek((ILuint)ExportTable[i].SerialOffset, IL_SEEK_SET);
 			Name = igetc();  // Skip the 2.  @TODO: Can there be more in front of the palettes?
 			Palettes[NumPal].Count = UtxReadCompactInteger();
+			if (Palettes[NumPal].Count == 0 || Palettes[NumPal].Count > iBytesLeft() / 4) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			Palettes[NumPal].Pal = new ILubyte[Palettes[NumPal].Count * 4];
 			if (iread(Palettes[NumPal].Pal, Palettes[NumPal].Count * 4, 1) != 1)
 				return IL_FALSE;
@@ -386,13 +425,17 @@ ILboolean iLoadUtxInternal(void)
 
 	for (i = 0; i < Header.ExportCount; i++) {
 		// Find textures in the file.
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Texture") {
-			iseek(ExportTable[i].SerialOffset, IL_SEEK_SET);
+		if (!strcmp(UtxClassName(NameEntries, ImportTable, ExportTable[i]), "Texture")) {
+			iseek((ILuint)ExportTable[i].SerialOffset, IL_SEEK_SET);
 			Width = -1;  Height = -1;  PalEntry = NumPal;  HasPal = IL_FALSE;  Format = -1;
 
 			do {
 				// Always starts with a comptact integer that gives us an entry into the name table.
 				Name = UtxReadCompactInteger();
+				if ((ILuint)Name >= Header.NameCount || ieof()) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return IL_FALSE;
+				}
 				if (NameEntries[Name].Name == "None")
 					break;
 				Type = igetc();
@@ -478,11 +521,19 @@ ILboolean iLoadUtxInternal(void)
 			if (Format == -1)
 				Format = UTX_P8;
 			// Just checks for everything being proper.  If the format is P8, we check to make sure that a palette was found.
-			if (Width == -1 || Height == -1 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1))
+			if (Width <= 0 || Height <= 0 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
+			// The pixels have to be in the file, which also bounds the memory that they need.
+			if ((ILuint64)Width * Height / (Format == UTX_P8 ? 1 : 2) > iBytesLeft()) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
+			}
 			if (BaseCreated == IL_FALSE) {
 				BaseCreated = IL_TRUE;
-				ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL);
+				if (!ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL))
+					return IL_FALSE;
 				Image = iCurImage;
 			}
 			else {
@@ -512,32 +563,39 @@ ILboolean iLoadUtxInternal(void)
 					break;
 
 				case UTX_DXT1:
-					Image->DxtcSize = IL_MAX(Image->Width * Image->Height / 2, 8);
-					CompData = (ILubyte*)ialloc(Image->DxtcSize);
+					CompSize = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
+					CompData = (ILubyte*)ialloc(CompSize);
 					if (CompData == NULL)
 						return IL_FALSE;
 
-					if (iread(CompData, Image->DxtcSize, 1) != 1) {
+					if (iread(CompData, CompSize, 1) != 1) {
+						ifree(CompData);
+						return IL_FALSE;
+					}
+					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
 						ifree(CompData);
 						return IL_FALSE;
 					}
 					// Keep a copy of the DXTC data if the user wants it.
 					if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 						Image->DxtcData = CompData;
+						Image->DxtcSize = CompSize;
 						Image->DxtcFormat = IL_DXT1;
-						CompData = NULL;
 					}
-					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
+					else {
 						ifree(CompData);
-						return IL_FALSE;
 					}
-					ifree(CompData);
 					break;
 			}
 			Image->Origin = IL_ORIGIN_UPPER_LEFT;
 		}
 	}
 
+	if (BaseCreated == IL_FALSE) {  // No textures in here
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 }
 
-- 
2.43.0


From b30b8a1f68e7b7c4aafcd914056e715556502904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 146/185] fix: VTF: check dimensions, thumbnail and mipmaps
 against the file

---
 DevIL/src-IL/src/il_vtf.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 62a112b..590b286 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -270,6 +270,7 @@ ILboolean iLoadVtfInternal(void)
 	ILint		Frame, Face, Mipmap, i;
 	ILuint		SizeOfData, Channels, k;
 	ILubyte		*CompData = NULL, SwapVal, *Data16Bit, *Temp, NumFaces;
+	ILuint64	MinSize, LevelSize;
 	VTFHEAD		Head;
 
 	if (iCurImage == NULL) {
@@ -410,6 +411,23 @@ ILboolean iLoadVtfInternal(void)
 			return IL_FALSE;
 	}
 
+	// All images have to be in the file, which also bounds the memory that they need.
+	MinSize = 0;
+	for (Mipmap = 0; Mipmap < Head.MipmapCount; Mipmap++) {
+		LevelSize = 1;
+		for (i = 0; i < 3; i++) {
+			k = i == 0 ? Head.Width : i == 1 ? Head.Height : Head.Depth;
+			k = Mipmap > 15 ? 1 : k >> Mipmap;
+			LevelSize *= k == 0 ? 1 : k;
+		}
+		// DXT1 has the smallest pixels with four bits each.
+		MinSize += (LevelSize + 1) / 2;
+	}
+	if (MinSize > iBytesLeft() / ((ILuint64)Head.Frames * NumFaces)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(Head.Width, Head.Height, Head.Depth, Channels, Format, Type, NULL))
 		return IL_FALSE;
 	// The origin should be in the upper left.
@@ -667,7 +685,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 	ILuint	Face;
 
 	// Initialize mipmaps under the base image.
-	VtfInitMipmaps(BaseImage, Header);
+	if (!VtfInitMipmaps(BaseImage, Header))
+		return IL_FALSE;
 	Image = BaseImage;
 
 	// We have an environment map.
@@ -687,7 +706,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 		Image->CubeFlags = GetFaceFlag(Face);
 
 		// Now we can initialize the mipmaps under each face.
-		VtfInitMipmaps(Image, Header);
+		if (!VtfInitMipmaps(Image, Header))
+			return IL_FALSE;
 	}
 
 	return IL_TRUE;
-- 
2.43.0


From e126a56ed578043cb8486b9de81857aa1ccb51e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 147/185] fix: WAL: check offsets and dimensions, mipmaps
 without a palette

---
 DevIL/src-IL/src/il_wal.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 1a70b0c..16ec881 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -76,8 +76,9 @@ ILboolean ilLoadWalL(const void *Lump, ILuint Size)
 ILboolean iLoadWalInternal()
 {
 	WALHEAD	Header;
-	ILimage	*Mipmaps[3], *CurImage;
+	ILimage	*Mipmaps[3] = { NULL, NULL, NULL }, *CurImage;
 	ILuint	i, NewW, NewH;
+	ILboolean	Attached = IL_FALSE;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -99,6 +100,12 @@ ILboolean iLoadWalInternal()
 	Header.Contents = GetLittleUInt();
 	Header.Value = GetLittleUInt();
 
+	// The pixels have to be in the file, which also bounds the memory that they need.
+	if (Header.Width == 0 || Header.Height == 0 || (ILuint64)Header.Width * Header.Height > iBytesLeft()) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 
@@ -106,23 +113,23 @@ ILboolean iLoadWalInternal()
 		Mipmaps[i] = (ILimage*)icalloc(sizeof(ILimage), 1);
 		if (Mipmaps[i] == NULL)
 			goto cleanup_error;
-		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
-		if (Mipmaps[i]->Pal.Palette == NULL)
-			goto cleanup_error;
-		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
-		Mipmaps[i]->Pal.PalType = IL_PAL_RGB24;
 	}
 
 	NewW = Header.Width;
 	NewH = Header.Height;
 	for (i = 0; i < 3; i++) {
-		NewW /= 2;
-		NewH /= 2;
+		NewW = NewW > 1 ? NewW / 2 : 1;
+		NewH = NewH > 1 ? NewH / 2 : 1;
 		iCurImage = Mipmaps[i];
 		if (!ilTexImage(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 			goto cleanup_error;
-		// Don't set until now so ilTexImage won't get rid of the palette.
+		// Not until now, because ilTexImage gets rid of the palette.
+		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
+		if (Mipmaps[i]->Pal.Palette == NULL)
+			goto cleanup_error;
+		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
 		Mipmaps[i]->Pal.PalSize = 768;
+		Mipmaps[i]->Pal.PalType = IL_PAL_RGB24;
 		Mipmaps[i]->Origin = IL_ORIGIN_UPPER_LEFT;
 	}
 
@@ -131,11 +138,14 @@ ILboolean iLoadWalInternal()
 	iCurImage->Mipmaps = Mipmaps[0];
 	Mipmaps[0]->Mipmaps = Mipmaps[1];
 	Mipmaps[1]->Mipmaps = Mipmaps[2];
+	Attached = IL_TRUE;
 
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
 		ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.PalSize = 0;
+	iCurImage->Pal.PalType = IL_PAL_NONE;
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
 	if (iCurImage->Pal.Palette == NULL)
 		goto cleanup_error;
@@ -158,8 +168,11 @@ ILboolean iLoadWalInternal()
 	return ilFixImage();
 
 cleanup_error:
-	for (i = 0; i < 3; i++) {
-		ilCloseImage(Mipmaps[i]);
+	iCurImage = CurImage;
+	if (!Attached) {  // They belong to the image otherwise.
+		for (i = 0; i < 3; i++) {
+			ilCloseImage(Mipmaps[i]);
+		}
 	}
 	return IL_FALSE;
 }
-- 
2.43.0


From a767180fda0d3d01160e132a71932bc381e11de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 148/185] fix: XPM: check the header and the characters per
 pixel

---
 DevIL/src-IL/src/il_xpm.cpp | 43 +++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 2a74b63..46465e9 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -277,6 +277,8 @@ ILint XpmGets(ILubyte *Buffer, ILint MaxLen)
 		//before a comment or before the pixel data)
 
 		for(i = 0; i < Size && isspace(Buffer[i]); ++i) ;
+		if (i == Size)  // Only whitespace (which the terminating 0 is not)
+			continue;
 		Size = Size - i;
 		for(j = 0; j < Size; ++j)
 			Buffer[j] = Buffer[j + i];
@@ -286,7 +288,7 @@ ILint XpmGets(ILubyte *Buffer, ILint MaxLen)
 
 		if (Buffer[0] == '/' && Buffer[1] == '*') {
 			for (i = 2; i < Size; i++) {
-				if (Buffer[i] == '*' && Buffer[i+1] == '/') {
+				if (Buffer[i] == '*' && i + 1 < Size && Buffer[i+1] == '/') {
 					break;
 				}
 			}
@@ -295,7 +297,7 @@ ILint XpmGets(ILubyte *Buffer, ILint MaxLen)
 		}
 		else if (InsideComment) {
 			for (i = 0; i < Size; i++) {
-				if (Buffer[i] == '*' && Buffer[i+1] == '/') {
+				if (Buffer[i] == '*' && i + 1 < Size && Buffer[i+1] == '/') {
 					break;
 				}
 			}
@@ -320,6 +322,8 @@ ILint XpmGetInt(ILubyte *Buffer, ILint Size, ILint *Position)
 	for (i = *Position, j = 0; i < Size; i++) {
 		if (isdigit(Buffer[i])) {
 			IsInNum = IL_TRUE;
+			if (j == 9)  // No number can be this long (and it has to fit into an ILint).
+				return -1;
 			Buff[j++] = Buffer[i];
 		}
 		else {
@@ -452,7 +456,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 	}
 	i++;  // Skip the quotes.
 
-	if (i >= Size)
+	if (i + Len >= Size)
 		return IL_FALSE;
 
 	// Get the characters.
@@ -519,7 +523,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 	}
 	else {
 		for (j = 0; i < Size; i++) {
-			if (!isalnum(Buffer[i]))
+			if (!isalnum(Buffer[i]) || j >= (ILint)sizeof(Buff) - 1)
 				break;
 			Buff[j++] = Buffer[i];
 		}
@@ -558,8 +562,13 @@ ILboolean iLoadXpmInternal()
 	ILint		Offset;
 #endif
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	Size = XpmGetsInternal(Buffer, BUFFER_SIZE);
-	if (strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */"))) {
+	if (Size == IL_EOF || strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */"))) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -582,8 +591,20 @@ ILboolean iLoadXpmInternal()
 	}
 #endif
 
+	if (Width <= 0 || Height <= 0 || NumColours < 0 || CharsPerPixel <= 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
+	// The pixels have to be in the file, which also bounds the memory that they need.
+	if ((ILuint64)Width * Height * CharsPerPixel > iBytesLeft()) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
+	// A line also has the quotes.
 	if (CharsPerPixel > XPM_MAX_CHAR_PER_PIXEL
-		|| Width*CharsPerPixel > BUFFER_SIZE) {
+		|| Width > (BUFFER_SIZE - 2) / CharsPerPixel) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
@@ -607,6 +628,7 @@ ILboolean iLoadXpmInternal()
 		if (!XpmGetColour(Buffer, Size, CharsPerPixel, Colours)) {
 			ifree(Colours);
 #endif
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
 	}
@@ -624,6 +646,15 @@ ILboolean iLoadXpmInternal()
 
 	for (y = 0; y < Height; y++) {
 		Size = XpmGets(Buffer, BUFFER_SIZE);
+		if (Size == IL_EOF || Size < Width * CharsPerPixel + 2) {  // The line is too short.
+#ifndef XPM_DONT_USE_HASHTABLE
+			XpmDestroyHashTable(HashTable);
+#else
+			ifree(Colours);
+#endif
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		for (x = 0; x < Width; x++) {
 #ifndef XPM_DONT_USE_HASHTABLE
 			XpmGetEntry(HashTable, &Buffer[1 + x*CharsPerPixel], CharsPerPixel, &Data[(x << 2)]);
-- 
2.43.0


From 2ba758ebfaebab9f87906836ba7b5e36be0e0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 149/185] fix: IFF: check tiles and runs, end the chunk stack

---
 DevIL/src-IL/src/il_iff.cpp | 180 ++++++++++++++++++++++--------------
 1 file changed, 111 insertions(+), 69 deletions(-)

diff --git a/DevIL/src-IL/src/il_iff.cpp b/DevIL/src-IL/src/il_iff.cpp
index c7ade04..3adf320 100755
--- a/DevIL/src-IL/src/il_iff.cpp
+++ b/DevIL/src-IL/src/il_iff.cpp
@@ -26,8 +26,8 @@ typedef struct _iff_chunk {
 static iff_chunk chunkStack[CHUNK_STACK_SIZE];
 static int chunkDepth = -1;
 
-iff_chunk iff_begin_read_chunk();
-void iff_end_read_chunk();
+ILboolean iff_begin_read_chunk(iff_chunk *Chunk);
+ILboolean iff_end_read_chunk(void);
 char *iff_read_data(int size);
 ILboolean iLoadIffInternal(void);
 
@@ -134,7 +134,8 @@ ILboolean iLoadIffInternal(void)
 	chunkDepth = -1;
 
 	// -- File should begin with a FOR4 chunk of type CIMG
-	chunkInfo = iff_begin_read_chunk();
+	if (!iff_begin_read_chunk(&chunkInfo))
+		return IL_FALSE;
 	if (chunkInfo.chunkType != IFF_TAG_CIMG) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
@@ -151,8 +152,9 @@ ILboolean iLoadIffInternal(void)
 	*/
 	while (1) {
 
-		chunkInfo = iff_begin_read_chunk();
-		
+		if (!iff_begin_read_chunk(&chunkInfo))
+			return IL_FALSE;
+
 		// -- Right now, the only info we need about the image is in TBHD
 		// -- so search this level until we find it.
 		if( chunkInfo.tag == IFF_TAG_TBHD ) {
@@ -166,15 +168,16 @@ ILboolean iLoadIffInternal(void)
 			tiles = GetBigUShort();
 			compress	= GetBigUInt();
 			
-			iff_end_read_chunk();
-		
+			if (!iff_end_read_chunk())
+				return IL_FALSE;
+
 			if( compress > 1 ) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return	IL_FALSE;
 			}
    				break;
-		} else
-			iff_end_read_chunk();
+		} else if (!iff_end_read_chunk())
+			return IL_FALSE;
 	} /* END find TBHD while loop */
 
 	if (!(flags & RGB_FLAG)) {
@@ -198,8 +201,9 @@ ILboolean iLoadIffInternal(void)
 	while (!tileImageDataFound) {
 		ILuint tileImage;
 		ILuint tileZ;
-	
-		chunkInfo = iff_begin_read_chunk();
+
+		if (!iff_begin_read_chunk(&chunkInfo))
+			return IL_FALSE;
 
 		/*
 		 * OK, we have a FOR4 of type TBMP, (embedded FOR4)
@@ -213,7 +217,8 @@ ILboolean iLoadIffInternal(void)
 		 *		FOR4 <size>	BLUR (twice embedded FOR4)
 		 */
 		if (chunkInfo.chunkType != IFF_TAG_TBMP) {
-			iff_end_read_chunk();
+			if (!iff_end_read_chunk())
+				return IL_FALSE;
 			continue;
 		}
 		tileImageDataFound = IL_TRUE;
@@ -225,13 +230,13 @@ ILboolean iLoadIffInternal(void)
 
 		// Read tiles
 		while ( (tileImage < tiles) || (tileZ < tiles)) {
-			char	 *tileData;
+			char	 *tileData = NULL;
 			ILushort x1, x2, y1, y2, tile_width, tile_height;
 			ILuint remainingDataSize;
-			ILushort	tile_area;
 			ILuint	tileCompressed;
 
-			chunkInfo = iff_begin_read_chunk();
+			if (!iff_begin_read_chunk(&chunkInfo))
+				return IL_FALSE;
 			if ((chunkInfo.tag != IFF_TAG_RGBA) && (chunkInfo.tag != IFF_TAG_ZBUF)) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
@@ -239,12 +244,22 @@ ILboolean iLoadIffInternal(void)
 			x1 = GetBigUShort();	y1 = GetBigUShort();
 			x2 = GetBigUShort();	y2 = GetBigUShort();
 
+			// The tile has to lie inside of the image.
+			if (chunkInfo.size < 4*sizeof(ILushort) || x2 < x1 || y2 < y1 || x2 >= width || y2 >= height
+				|| x2 - x1 >= 0xFFFF || y2 - y1 >= 0xFFFF) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
+
 			remainingDataSize = chunkInfo.size - 4*sizeof(ILushort);
+			if (remainingDataSize > iBytesLeft()) {
+				ilSetError(IL_FILE_READ_ERROR);
+				return IL_FALSE;
+			}
 			tile_width = x2 - x1 + 1;
 			tile_height = y2 - y1 + 1;
-			tile_area = tile_width * tile_height;
 
-			if ((ILint)remainingDataSize >= (tile_width * tile_height * bpp))
+			if (remainingDataSize >= (ILuint64)tile_width * tile_height * bpp)
 				tileCompressed = 0;
 			else
 				tileCompressed = 1;
@@ -264,23 +279,23 @@ ILboolean iLoadIffInternal(void)
 				if (tileData) {
 					// Dump RGBA data to our data structure 
 					ILushort	i;
-					ILuint		base;
-					base = bpp*(width * y1 + x1);
 					for (i = 0; i < tile_height; i++) {
-						memcpy(&iCurImage->Data[base + bpp*i*width],
-								&tileData[bpp*i*tile_width],
+						memcpy(&iCurImage->Data[iCurImage->Bps * (y1 + i) + bpp * x1],
+								&tileData[(ILuint)bpp * i * tile_width],
 								tile_width*bpp*sizeof(char));
 					}
 					ifree(tileData);
 					tileData = NULL;
-	    
-					iff_end_read_chunk();
+
+					if (!iff_end_read_chunk())
+						return IL_FALSE;
 					tileImage++;
 				} else
 					return IL_FALSE;
 			} else if (chunkInfo.tag == IFF_TAG_ZBUF) {
 				tileZ++;
-				iff_end_read_chunk();
+				if (!iff_end_read_chunk())
+					return IL_FALSE;
 			}
 
 		}
@@ -294,16 +309,21 @@ ILboolean iLoadIffInternal(void)
  *
  */
 
-iff_chunk iff_begin_read_chunk()
+ILboolean iff_begin_read_chunk(iff_chunk *Chunk)
 {
 	chunkDepth++;
 	if (chunkDepth >= CHUNK_STACK_SIZE){
 		ilSetError(IL_STACK_OVERFLOW);
-		return chunkStack[0];
+		return IL_FALSE;
 	}
 	if (chunkDepth < 0) {
 		ilSetError(IL_STACK_UNDERFLOW);
-		return chunkStack[0];
+		return IL_FALSE;
+	}
+
+	if (iBytesLeft() < 8) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
 	}
 
 	chunkStack[chunkDepth].start = itell();
@@ -317,14 +337,22 @@ iff_chunk iff_begin_read_chunk()
 		chunkStack[chunkDepth].chunkType = 0;
 	} 
 	
-	return chunkStack[chunkDepth];
+	*Chunk = chunkStack[chunkDepth];
+	return IL_TRUE;
 }
 
-void iff_end_read_chunk()
+ILboolean iff_end_read_chunk(void)
 {
 	ILuint	end;
 	int		part;
-  
+
+	// The chunk cannot end after the file.
+	iseek(chunkStack[chunkDepth].start, IL_SEEK_SET);
+	if (chunkStack[chunkDepth].size > iBytesLeft()) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
+
 	end = chunkStack[chunkDepth].start + chunkStack[chunkDepth].size + 8;
     
 	if (chunkStack[chunkDepth].chunkType != 0) {
@@ -339,6 +367,7 @@ void iff_end_read_chunk()
 	iseek(end, IL_SEEK_SET);
 
 	chunkDepth--;
+	return IL_TRUE;
 }
 
 char * iff_read_data(int size)
@@ -365,8 +394,13 @@ char *iffReadUncompressedTile(ILushort width, ILushort height, ILbyte depth)
 	char	*data = NULL;
 	char	*iniPixel;
 	char	*finPixel;
-	int		i, j;
-	int		tam = width* height * depth * sizeof(char);
+	ILuint	i, tam;
+
+	if ((ILuint64)width * height * depth > iBytesLeft()) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return NULL;
+	}
+	tam = (ILuint)width * height * depth;
 
 	data = (char*)ialloc(tam);
 	if (data == NULL)
@@ -377,14 +411,15 @@ char *iffReadUncompressedTile(ILushort width, ILushort height, ILbyte depth)
 		return NULL;
 	}
 
-	iniPixel = data;
-	for (i = 0; i < tam / depth; i++) {
-		finPixel = iniPixel + depth;
-		for (j = 0; j < (depth /2); j++) {
+	// The channels are stored in the reverse order.
+	for (i = 0; i < tam; i += depth) {
+		iniPixel = data + i;
+		finPixel = iniPixel + depth - 1;
+		while (iniPixel < finPixel) {
 			char aux;
 			aux = *iniPixel; 
-			*(finPixel--) = *iniPixel;
-			*(iniPixel++) = aux;
+			*(iniPixel++) = *finPixel;
+			*(finPixel--) = aux;
 		}
 	}
 	return data;
@@ -395,9 +430,10 @@ char *iff_decompress_tile_rle(ILushort width, ILushort height, ILushort depth,
 							  char *compressedData, ILuint compressedDataSize)
 {
 
-	char	*channels[4];
-	char	*data;
-	int		i, k, row, column;
+	char	*channels[4] = { NULL, NULL, NULL, NULL };
+	char	*data = NULL;
+	int		i;
+	ILuint	k, numBytes = (ILuint)width * height;
 	ILuint	compressedStart = 0;
 
 	// Decompress only in RGBA.
@@ -407,23 +443,22 @@ char *iff_decompress_tile_rle(ILushort width, ILushort height, ILushort depth,
 	}
 
 	for (i = depth-1; i >= 0; --i) {
-		channels[i] = iff_decompress_rle(width * height, compressedData, 
+		channels[i] = iff_decompress_rle(numBytes, compressedData, 
 				      compressedDataSize, &compressedStart);
 		if (channels[i] == NULL)
-			return NULL;
+			goto cleanup;
 	}
 
     // Build all the channels from the decompression into an RGBA array.
-	data = (char*)ialloc(width * height * depth * sizeof(char));
+	data = (char*)ialloc((ILsizei)numBytes * depth);
 	if (data == NULL)
-		return NULL;
+		goto cleanup;
 
-	for (row = 0; row < height; row++)
-		for (column = 0; column < width; column++)
-			for (k = 0; k < depth; k++)
-				data[depth*(row*width + column) + k] =
-					channels[k][row*width + column];
-	
+	for (k = 0; k < numBytes; k++)
+		for (i = 0; i < depth; i++)
+			data[(ILsizei)depth * k + i] = channels[i][k];
+
+cleanup:
 	ifree(channels[0]); ifree(channels[1]);
 	ifree(channels[2]); ifree(channels[3]);
 
@@ -435,41 +470,48 @@ char *iff_decompress_rle(ILuint numBytes, char *compressedData,
 							ILuint *compressedStartIndex)
 {
 
-	char	*data = (char*)ialloc(numBytes * sizeof(char));
-	unsigned char	nextChar, count;
-	int		i;
-	ILuint	byteCount = 0;
+	char	*data;
+	unsigned char	nextChar;
+	ILuint	byteCount = 0, count;
 
+	// A run of two bytes expands to up to 128 bytes.
+	if (numBytes / 64 > compressedDataSize) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return NULL;
+	}
+	data = (char*)ialloc(numBytes * sizeof(char));
 	if (data == NULL)
 		return NULL;
 
-	memset(data, 0, numBytes*sizeof(char));
-
 	while (byteCount < numBytes) {
 		if (*compressedStartIndex >= compressedDataSize)
 			break;
 		nextChar = compressedData[*compressedStartIndex];
 		(*compressedStartIndex)++;
 		count = (nextChar & 0x7f) + 1;
-		if ((byteCount + count) > numBytes) break;
+		if (count > numBytes - byteCount)
+			break;
 		if (nextChar & 0x80) {
 			// Duplication run
+			if (*compressedStartIndex >= compressedDataSize)
+				break;
 			nextChar = compressedData[*compressedStartIndex];
 			(*compressedStartIndex)++;
-			// assert ((byteCount + count) <= numBytes);
-			for (i = 0; i < count; i++) {
-				data[byteCount]= nextChar;
-				byteCount++;
-			}
+			memset(data + byteCount, nextChar, count);
 		} else {
 			// Verbatim run
-			for (i = 0; i < count; i++) {
-				data[byteCount] = compressedData[*compressedStartIndex];
-				(*compressedStartIndex)++;
-				byteCount++;
-			}
+			if (count > compressedDataSize - *compressedStartIndex)
+				break;
+			memcpy(data + byteCount, compressedData + *compressedStartIndex, count);
+			(*compressedStartIndex) += count;
 		}
-		//assert(byteCount <= numBytes);
+		byteCount += count;
+	}
+
+	if (byteCount < numBytes) {  // The data is incomplete.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		ifree(data);
+		return NULL;
 	}
 
 	return data;
-- 
2.43.0


From f1325e3737e0263d462842157597561fd78aefdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 150/185] fix: ROT: check the mipmaps against the file

---
 DevIL/src-IL/src/il_rot.cpp | 151 +++++++++++++++---------------------
 1 file changed, 61 insertions(+), 90 deletions(-)

diff --git a/DevIL/src-IL/src/il_rot.cpp b/DevIL/src-IL/src/il_rot.cpp
index c6ec36b..da7ef06 100644
--- a/DevIL/src-IL/src/il_rot.cpp
+++ b/DevIL/src-IL/src/il_rot.cpp
@@ -73,9 +73,10 @@ ILboolean ilLoadRotL(const void *Lump, ILuint Size)
 ILboolean iLoadRotInternal(void)
 {
 	ILubyte		Form[4], FormName[4];
-	ILuint		FormLen, Width, Height, Format, Channels, CompSize;
+	ILuint		FormLen, Width, Height, Format, Channels, CompSize, BlockSize = 0;
 	ILuint		MipSize, MipLevel, MipWidth, MipHeight;
-	ILenum		FormatIL;
+	ILenum		FormatIL, DxtcFormat = IL_DXT_NO_COMP;
+	ILboolean	Decompressed;
 	ILimage		*Image;
 	ILboolean	BaseCreated = IL_FALSE;
 	ILubyte		*CompData = NULL;
@@ -110,17 +111,16 @@ ILboolean iLoadRotInternal(void)
 		case ROT_DXT1:  // DXT1 (no alpha)
 			Channels = 4;
 			FormatIL = IL_RGBA;
+			BlockSize = 8;
+			DxtcFormat = IL_DXT1;
 			break;
 
 		case ROT_DXT3:  // DXT3
 		case ROT_DXT5:  // DXT5
 			Channels = 4;
 			FormatIL = IL_RGBA;
-			// Allocates the maximum needed (the first width/height given in the file).
-			CompSize = ((Width + 3) / 4) * ((Height + 3) / 4) * 16;
-			CompData = (ILubyte*)ialloc(CompSize);
-			if (CompData == NULL)
-				return IL_FALSE;
+			BlockSize = 16;
+			DxtcFormat = Format == ROT_DXT3 ? IL_DXT3 : IL_DXT5;
 			break;
 
 		default:
@@ -150,6 +150,13 @@ ILboolean iLoadRotInternal(void)
 	Image = iCurImage;
 	do {
 		// Then we have 'FORM' again.
+		if (iBytesLeft() < 12) {
+			if (!BaseCreated) {
+				ilSetError(IL_FILE_READ_ERROR);
+				return IL_FALSE;
+			}
+			break;
+		}
 		iread(Form, 1, 4);
 		// This is the size of the mipmap data.
 		MipSize = GetBigUInt();
@@ -174,7 +181,18 @@ ILboolean iLoadRotInternal(void)
 		MipSize = GetLittleUInt();  // This is the same as the previous size listed -20 (for attributes).
 
 		// Lower level mipmaps cannot be larger than the main image.
-		if (MipWidth > Width || MipHeight > Height || MipSize > CompSize) {
+		if (MipWidth == 0 || MipHeight == 0 || MipWidth > Width || MipHeight > Height) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
+		// The data cannot be larger than what is left of the file.
+		if ((BlockSize == 0 && (ILuint64)MipWidth * MipHeight * Channels > iBytesLeft()) ||
+			(ILuint64)((MipWidth + 3) / 4) * ((MipHeight + 3) / 4) * BlockSize > iBytesLeft()) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
+		CompSize = ((MipWidth + 3) / 4) * ((MipHeight + 3) / 4) * BlockSize;
+		if (BlockSize != 0 && CompSize != MipSize) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
@@ -187,99 +205,52 @@ ILboolean iLoadRotInternal(void)
 		}
 		else {
 			Image->Mipmaps = ilNewImageFull(MipWidth, MipHeight, 1, Channels, FormatIL, IL_UNSIGNED_BYTE, NULL);
+			if (Image->Mipmaps == NULL)
+				return IL_FALSE;
 			Image = Image->Mipmaps;
 		}
 
+		if (Format == ROT_RGBA32) {  // 32-bit RGBA format
+			if (iread(Image->Data, Image->SizeOfData, 1) != 1)
+				return IL_FALSE;
+			continue;
+		}
+
+		// Read in the compressed data...
+		CompData = (ILubyte*)ialloc(CompSize);
+		if (CompData == NULL)
+			return IL_FALSE;
+		if (iread(CompData, CompSize, 1) != 1) {
+			ifree(CompData);
+			return IL_FALSE;
+		}
+
+		// ...and decompress it.
 		switch (Format)
 		{
-			case ROT_RGBA32:  // 32-bit RGBA format
-				if (iread(Image->Data, Image->SizeOfData, 1) != 1)
-					return IL_FALSE;
-				break;
-
 			case ROT_DXT1:
-				// Allocates the size of the compressed data.
-				CompSize = ((MipWidth + 3) / 4) * ((MipHeight + 3) / 4) * 8;
-				if (CompSize != MipSize) {
-					ilSetError(IL_INVALID_FILE_HEADER);
-					return IL_FALSE;
-				}
-				CompData = (ILubyte*)ialloc(CompSize);
-				if (CompData == NULL)
-					return IL_FALSE;
-
-				// Read in the DXT1 data...
-				if (iread(CompData, CompSize, 1) != 1)
-					return IL_FALSE;
-				// ...and decompress it.
-				if (!DecompressDXT1(Image, CompData)) {
-					ifree(CompData);
-					return IL_FALSE;
-				}
-				if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
-					Image->DxtcSize = CompSize;
-					Image->DxtcData = CompData;
-					Image->DxtcFormat = IL_DXT1;
-					CompData = NULL;
-				}
+				Decompressed = DecompressDXT1(Image, CompData);
 				break;
-
 			case ROT_DXT3:
-				// Allocates the size of the compressed data.
-				CompSize = ((MipWidth + 3) / 4) * ((MipHeight + 3) / 4) * 16;
-				if (CompSize != MipSize) {
-					ilSetError(IL_INVALID_FILE_HEADER);
-					return IL_FALSE;
-				}
-				CompData = (ILubyte*)ialloc(CompSize);
-				if (CompData == NULL)
-					return IL_FALSE;
-
-				// Read in the DXT3 data...
-				if (iread(CompData, MipSize, 1) != 1)
-					return IL_FALSE;
-				// ...and decompress it.
-				if (!DecompressDXT3(Image, CompData)) {
-					ifree(CompData);
-					return IL_FALSE;
-				}
-				if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
-					Image->DxtcSize = CompSize;
-					Image->DxtcData = CompData;
-					Image->DxtcFormat = IL_DXT3;
-					CompData = NULL;
-				}
+				Decompressed = DecompressDXT3(Image, CompData);
 				break;
+			default:
+				Decompressed = DecompressDXT5(Image, CompData);
+		}
+		if (!Decompressed) {
+			ifree(CompData);
+			return IL_FALSE;
+		}
 
-			case ROT_DXT5:
-				// Allocates the size of the compressed data.
-				CompSize = ((MipWidth + 3) / 4) * ((MipHeight + 3) / 4) * 16;
-				if (CompSize != MipSize) {
-					ilSetError(IL_INVALID_FILE_HEADER);
-					return IL_FALSE;
-				}
-				CompData = (ILubyte*)ialloc(CompSize);
-				if (CompData == NULL)
-					return IL_FALSE;
-
-				// Read in the DXT5 data...
-				if (iread(CompData, MipSize, 1) != 1)
-					return IL_FALSE;
-				// ...and decompress it.
-				if (!DecompressDXT5(Image, CompData)) {
-					ifree(CompData);
-					return IL_FALSE;
-				}
-				// Keeps a copy
-				if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
-					Image->DxtcSize = CompSize;
-					Image->DxtcData = CompData;
-					Image->DxtcFormat = IL_DXT5;
-					CompData = NULL;
-				}
-				break;
+		// Keeps a copy
+		if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+			Image->DxtcSize = CompSize;
+			Image->DxtcData = CompData;
+			Image->DxtcFormat = DxtcFormat;
+		}
+		else {
+			ifree(CompData);  // Free it if it was not saved.
 		}
-		ifree(CompData);  // Free it if it was not saved.
 	} while (!ieof());  //@TODO: Is there any other condition that should end this?
 
 	return ilFixImage();
-- 
2.43.0


From 7b3ec38eb9cc217e2ab25be01b343c6d3d07f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 151/185] fix: PSP: check chunks, channels and palettes against
 the file

---
 DevIL/src-IL/include/il_psp.h |   2 +-
 DevIL/src-IL/src/il_psp.cpp   | 163 ++++++++++++++++++----------------
 2 files changed, 89 insertions(+), 76 deletions(-)

diff --git a/DevIL/src-IL/include/il_psp.h b/DevIL/src-IL/include/il_psp.h
index f5a789f..f27dde4 100644
--- a/DevIL/src-IL/include/il_psp.h
+++ b/DevIL/src-IL/include/il_psp.h
@@ -240,7 +240,7 @@ ILboolean	ParseChunks(void);
 ILboolean	ReadLayerBlock(ILuint BlockLen);
 ILboolean	ReadAlphaBlock(ILuint BlockLen);
 ILubyte		*GetChannel(void);
-ILboolean	UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen);
+ILboolean	UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen, ILuint DataLen);
 ILboolean	ReadPalette(ILuint BlockLen);
 ILboolean	AssembleImage(void);
 ILboolean	Cleanup(void);
diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index 65588cc..0509a2e 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -178,22 +178,19 @@ ILboolean iLoadPspInternal()
 	}
 
 	Channels = NULL;
+	NumChannels = 0;
 	Alpha = NULL;
 	Pal.Palette = NULL;
 
-	if (!iGetPspHead())
-		return IL_FALSE;
-	if (!iCheckPsp()) {
+	if (!iGetPspHead() || !iCheckPsp()) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	if (!ReadGenAttributes())
-		return IL_FALSE;
-	if (!ParseChunks())
-		return IL_FALSE;
-	if (!AssembleImage())
+	if (!ReadGenAttributes() || !ParseChunks() || !AssembleImage()) {
+		Cleanup();
 		return IL_FALSE;
+	}
 
 	Cleanup();
 	return ilFixImage();
@@ -224,8 +221,11 @@ ILboolean ReadGenAttributes()
 	ChunkLen = GetLittleUInt();
 	if (Header.MajorVersion != 3)
 		ChunkLen -= 4;
-	if (iread(&AttChunk, IL_MIN(sizeof(AttChunk), ChunkLen), 1) != 1)
+	memset(&AttChunk, 0, sizeof(AttChunk));
+	if (iread(&AttChunk, IL_MIN(sizeof(AttChunk), ChunkLen), 1) != 1) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	// Can have new entries in newer versions of the spec (4.0).
 	Padding = (ChunkLen) - sizeof(AttChunk);
@@ -244,6 +244,12 @@ ILboolean ReadGenAttributes()
 		return IL_FALSE;
 	}
 
+	// The dimensions are signed in the file.
+	if (AttChunk.Width <= 0 || AttChunk.Height <= 0 || AttChunk.Width > 0x7FFFFFFF / AttChunk.Height) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	// @TODO: Check more things in the general attributes chunk here.
 
 	return IL_TRUE;
@@ -299,6 +305,9 @@ ILboolean ParseChunks()
 		}
 
 		// Skip to next block just in case we didn't read the entire block.
+		iseek(Pos, IL_SEEK_SET);
+		if (Block.BlockLen > iBytesLeft())
+			return IL_TRUE;
 		iseek(Pos + Block.BlockLen, IL_SEEK_SET);
 
 		// @TODO: Do stuff here.
@@ -314,7 +323,8 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 	BLOCKHEAD			Block;
 	LAYERINFO_CHUNK		LayerInfo;
 	LAYERBITMAP_CHUNK	Bitmap;
-	ILuint				ChunkSize, Padding, i, j;
+	ILuint				ChunkSize, i, j;
+	ILint				Padding;
 	ILushort			NumChars;
 
 	BlockLen;
@@ -328,11 +338,10 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 		UInt(&Block.BlockLen);
 
 	if (Block.HeadID[0] != 0x7E || Block.HeadID[1] != 0x42 ||
-		Block.HeadID[2] != 0x4B || Block.HeadID[3] != 0x00) {
+		Block.HeadID[2] != 0x4B || Block.HeadID[3] != 0x00 || Block.BlockID != PSP_LAYER_BLOCK) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
-	if (Block.BlockID != PSP_LAYER_BLOCK)
-		return IL_FALSE;
 
 
 	if (Header.MajorVersion == 3) {
@@ -346,6 +355,10 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 		NumChars = GetLittleUShort();
 		iseek(NumChars, IL_SEEK_CUR);  // We don't care about the layer's name.
 
+		if (ChunkSize <= 2u + 4u + NumChars) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		ChunkSize -= (2 + 4 + NumChars);
 
 		if (iread(&LayerInfo, IL_MIN(sizeof(LayerInfo), ChunkSize), 1) != 1)
@@ -365,21 +378,26 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 	}
 
 
+	if (Channels != NULL || Bitmap.NumChannels == 0) {  // There is only one layer bank.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 	Channels = (ILubyte**)ialloc(sizeof(ILubyte*) * Bitmap.NumChannels);
 	if (Channels == NULL) {
 		return IL_FALSE;
 	}
 
-	NumChannels = Bitmap.NumChannels;
-
-	for (i = 0; i < NumChannels; i++) {
+	for (i = 0; i < Bitmap.NumChannels; i++) {
 		Channels[i] = GetChannel();
 		if (Channels[i] == NULL) {
 			for (j = 0; j < i; j++)
 				ifree(Channels[j]);
+			ifree(Channels);
+			Channels = NULL;
 			return IL_FALSE;
 		}
 	}
+	NumChannels = Bitmap.NumChannels;
 
 	return IL_TRUE;
 }
@@ -391,7 +409,8 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 	ALPHAINFO_CHUNK	AlphaInfo;
 	ALPHA_CHUNK		AlphaChunk;
 	ILushort		NumAlpha, StringSize;
-	ILuint			ChunkSize, Padding;
+	ILuint			ChunkSize;
+	ILint			Padding;
 
 	if (Header.MajorVersion == 3) {
 		NumAlpha = GetLittleUShort();
@@ -413,11 +432,10 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 		UInt(&Block.BlockLen);
 
 	if (Block.HeadID[0] != 0x7E || Block.HeadID[1] != 0x42 ||
-		Block.HeadID[2] != 0x4B || Block.HeadID[3] != 0x00) {
+		Block.HeadID[2] != 0x4B || Block.HeadID[3] != 0x00 || Block.BlockID != PSP_ALPHA_CHANNEL_BLOCK) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
-	if (Block.BlockID != PSP_ALPHA_CHANNEL_BLOCK)
-		return IL_FALSE;
 
 
 	if (Header.MajorVersion >= 4) {
@@ -451,6 +469,7 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 	}*/
 
 
+	ifree(Alpha);
 	Alpha = GetChannel();
 	if (Alpha == NULL)
 		return IL_FALSE;
@@ -464,7 +483,8 @@ ILubyte *GetChannel()
 	BLOCKHEAD		Block;
 	CHANNEL_CHUNK	Channel;
 	ILubyte			*CompData, *Data;
-	ILuint			ChunkSize, Padding;
+	ILuint			ChunkSize, Size = AttChunk.Width * AttChunk.Height;
+	ILint			Padding;
 
 	if (iread(&Block, 1, sizeof(Block)) != sizeof(Block))
 		return NULL;
@@ -499,8 +519,15 @@ ILubyte *GetChannel()
 	}
 
 
+	// The channel has to be in the file completely, and two compressed bytes expand to up to 127 bytes.
+	if (Channel.CompLen == 0 || Channel.CompLen > iBytesLeft() || Size / 64 > Channel.CompLen ||
+		(AttChunk.Compression == PSP_COMP_NONE && Channel.CompLen < Size)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return NULL;
+	}
+
 	CompData = (ILubyte*)ialloc(Channel.CompLen);
-	Data = (ILubyte*)ialloc(AttChunk.Width * AttChunk.Height);
+	Data = (ILubyte*)ialloc(Size);
 	if (CompData == NULL || Data == NULL) {
 		ifree(Data);
 		ifree(CompData);
@@ -521,10 +548,11 @@ ILubyte *GetChannel()
 			break;
 
 		case PSP_COMP_RLE:
-			if (!UncompRLE(CompData, Data, Channel.CompLen)) {
+			if (!UncompRLE(CompData, Data, Channel.CompLen, Size)) {
 				ifree(CompData);
 				ifree(Data);
-				return IL_FALSE;
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return NULL;
 			}
 			break;
 
@@ -541,66 +569,35 @@ ILubyte *GetChannel()
 }
 
 
-ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen)
+ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen, ILuint DataLen)
 {
-	ILubyte	Run, Colour;
-	ILint	i, /*x, y,*/ Count/*, Total = 0*/;
-
-	/*for (y = 0; y < AttChunk.Height; y++) {
-		for (x = 0, Count = 0; x < AttChunk.Width; ) {
-			Run = *CompData++;
-			if (Run > 128) {
-				Run -= 128;
-				Colour = *CompData++;
-				memset(Data, Colour, Run);
-				Data += Run;
-				Count += 2;
-			}
-			else {
-				memcpy(Data, CompData, Run);
-				CompData += Run;
-				Data += Run;
-				Count += Run;
-			}
-			x += Run;
-		}
+	ILuint	i, Count, Run;
 
-		Total += Count;
-
-		if (Count % 4) {  // Has to be on a 4-byte boundary.
-			CompData += (4 - (Count % 4)) % 4;
-			Total += (4 - (Count % 4)) % 4;
-		}
-
-		if (Total >= CompLen)
-			return IL_FALSE;
-	}*/
-
-	for (i = 0, Count = 0; i < (ILint)CompLen; ) {
-		Run = *CompData++;
-		i++;
+	for (i = 0, Count = 0; i < CompLen && Count < DataLen; ) {
+		Run = CompData[i++];
 		if (Run > 128) {
 			Run -= 128;
-			Colour = *CompData++;
-			i++;
-			memset(Data, Colour, Run);
+			if (i >= CompLen)
+				return IL_FALSE;
+			memset(Data + Count, CompData[i++], IL_MIN(Run, DataLen - Count));
 		}
 		else {
-			memcpy(Data, CompData, Run);
-			CompData += Run;
+			if (Run > CompLen - i)
+				return IL_FALSE;
+			memcpy(Data + Count, CompData + i, IL_MIN(Run, DataLen - Count));
 			i += Run;
 		}
-		Data += Run;
-		Count += Run;
+		Count += IL_MIN(Run, DataLen - Count);
 	}
 
-	return IL_TRUE;
+	return Count == DataLen;
 }
 
 
 ILboolean ReadPalette(ILuint BlockLen)
 {
-	ILuint ChunkSize, PalCount, Padding;
+	ILuint	ChunkSize, PalCount;
+	ILint	Padding;
 
 	if (Header.MajorVersion >= 4) {
 		ChunkSize = GetLittleUInt();
@@ -613,6 +610,11 @@ ILboolean ReadPalette(ILuint BlockLen)
 		PalCount = GetLittleUInt();
 	}
 
+	if (PalCount == 0 || PalCount > iBytesLeft() / 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	ifree(Pal.Palette);
 	Pal.PalSize = PalCount * 4;
 	Pal.PalType = IL_PAL_BGRA32;
 	Pal.Palette = (ILubyte*)ialloc(Pal.PalSize);
@@ -621,6 +623,7 @@ ILboolean ReadPalette(ILuint BlockLen)
 
 	if (iread(Pal.Palette, Pal.PalSize, 1) != 1) {
 		ifree(Pal.Palette);
+		Pal.Palette = NULL;
 		return IL_FALSE;
 	}
 
@@ -635,7 +638,8 @@ ILboolean AssembleImage()
 	Size = AttChunk.Width * AttChunk.Height;
 
 	if (NumChannels == 1) {
-		ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+			return IL_FALSE;
 		for (i = 0; i < Size; i++) {
 			iCurImage->Data[i] = Channels[0][i];
 		}
@@ -645,11 +649,13 @@ ILboolean AssembleImage()
 			iCurImage->Pal.PalSize = Pal.PalSize;
 			iCurImage->Pal.PalType = Pal.PalType;
 			iCurImage->Pal.Palette = Pal.Palette;
+			Pal.Palette = NULL;  // It belongs to the image now.
 		}
 	}
 	else {
-		if (Alpha) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+		if (Alpha && NumChannels >= 3) {
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
@@ -660,7 +666,8 @@ ILboolean AssembleImage()
 
 		else if (NumChannels == 4) {
 
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 
@@ -676,15 +683,18 @@ ILboolean AssembleImage()
 
 		}
 		else if (NumChannels == 3) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 3) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
 				iCurImage->Data[j+2] = Channels[2][i];
 			}
 		}
-		else
+		else {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
+		}
 	}
 
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -708,7 +718,10 @@ ILboolean Cleanup()
 		ifree(Alpha);
 	}
 
+	ifree(Pal.Palette);
+
 	Channels = NULL;
+	NumChannels = 0;
 	Alpha = NULL;
 	Pal.Palette = NULL;
 
-- 
2.43.0


From 5e808ca300e455fdf31f6d92dd8aa33dbab9dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 152/185] fix: PCD: short files, rows of the chosen resolution

---
 DevIL/src-IL/src/il_pcd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_pcd.cpp b/DevIL/src-IL/src/il_pcd.cpp
index 3ce4202..e5e994a 100644
--- a/DevIL/src-IL/src/il_pcd.cpp
+++ b/DevIL/src-IL/src/il_pcd.cpp
@@ -119,7 +119,7 @@ ILboolean iLoadPcdInternal()
 	if (iread(&VertOrientation, 1, 1) != 1)
 		return IL_FALSE;
 
-	iseek(-72, IL_SEEK_CUR);  // Can't rewind
+	iseek(-73, IL_SEEK_CUR);  // Can't rewind
 
 	PicNum = iGetInt(IL_PCD_PICNUM);
 
@@ -159,6 +159,9 @@ ILboolean iLoadPcdInternal()
 	}
 
 	if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
+		ifree(Y1);
+		ifree(Y2);
+		ifree(CbCr);
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-- 
2.43.0


From 54dce367fbbf4f7d9733118cbe458c1f880a66fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 153/185] fix: SCITEX: check the header, numbers without an end

---
 DevIL/src-IL/src/il_scitex.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_scitex.cpp b/DevIL/src-IL/src/il_scitex.cpp
index baf5fc9..99c6eee 100644
--- a/DevIL/src-IL/src/il_scitex.cpp
+++ b/DevIL/src-IL/src/il_scitex.cpp
@@ -230,6 +230,7 @@ ILboolean iLoadScitexInternal(void)
 		return IL_FALSE;
 	}
 	if (!iCheckScitex(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
@@ -278,7 +279,11 @@ ILboolean iLoadScitexInternal(void)
 
 			for (ILuint h = 0; h < iCurImage->Height; h++)
 			{
-				iread(iCurImage->Data + Pos, 1, iCurImage->Width);
+				if (iread(iCurImage->Data + Pos, 1, iCurImage->Width) != iCurImage->Width)
+				{
+					ifree(RowData);
+					return IL_FALSE;
+				}
 				if (iCurImage->Width % 2 != 0)  // Pads to even width
 					igetc();
 				Pos += Header.WidthPixels;
@@ -289,6 +294,7 @@ ILboolean iLoadScitexInternal(void)
 		//case 15:
 		//default:
 	}
+	ifree(RowData);
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	return ilFixImage();
-- 
2.43.0


From eb7e3f18b0851a2a17c5aaf37a41a79579aa5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 154/185] fix: PXR: check the dimensions

---
 DevIL/src-IL/src/il_pxr.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_pxr.cpp b/DevIL/src-IL/src/il_pxr.cpp
index 6c49329..a62a425 100644
--- a/DevIL/src-IL/src/il_pxr.cpp
+++ b/DevIL/src-IL/src/il_pxr.cpp
@@ -84,6 +84,11 @@ ILboolean iLoadPxrInternal()
 	ILushort	Width, Height;
 	ILubyte		Bpp;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	Width = sizeof(PIXHEAD);
 
 	iseek(416, IL_SEEK_SET);
@@ -95,13 +100,16 @@ ILboolean iLoadPxrInternal()
 	switch (Bpp)
 	{
 		case 0x08:
-			ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0E:
-			ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0F:
-			ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
@@ -109,10 +117,11 @@ ILboolean iLoadPxrInternal()
 	}
 
 	iseek(1024, IL_SEEK_SET);
-	iread(iCurImage->Data, 1, iCurImage->SizeOfData);
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
-- 
2.43.0


From f29442d020171ef15ea692cc698af762b8250681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 155/185] fix: FITS: check the cards and dimensions

---
 DevIL/src-IL/src/il_fits.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_fits.cpp b/DevIL/src-IL/src/il_fits.cpp
index e6f145c..df0629e 100644
--- a/DevIL/src-IL/src/il_fits.cpp
+++ b/DevIL/src-IL/src/il_fits.cpp
@@ -278,10 +278,16 @@ ILboolean iLoadFitsInternal(void)
 		return IL_FALSE;
 	}
 
-	if (!iGetFitsHead(&Header))
+	if (!iGetFitsHead(&Header) || !iCheckFits(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
-	if (!iCheckFits(&Header))
+	}
+	// The data cannot be larger than what is left of the file.
+	if ((ILuint64)Header.Width * Header.Height > iBytesLeft() ||
+		(ILuint64)Header.Width * Header.Height * Header.Depth > iBytesLeft() / (abs(Header.BitsPixel) / 8)) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
+	}
 
 	if (!ilTexImage(Header.Width, Header.Height, Header.Depth, Header.NumChans, Header.Format, Header.Type, NULL))
 		return IL_FALSE;
@@ -290,7 +296,6 @@ ILboolean iLoadFitsInternal(void)
 		return IL_FALSE;*/
 
 	NumPix = Header.Width * Header.Height * Header.Depth;
-//@TODO: Do some checks while reading to see if we have hit the end of the file.
 	switch (Header.Type)
 	{
 		case IL_UNSIGNED_BYTE:
@@ -320,7 +325,8 @@ ILboolean iLoadFitsInternal(void)
 				if (((ILfloat*)iCurImage->Data)[i] < 0.0f)
 					((ILfloat*)iCurImage->Data)[i] = 0.0f;
 				// Do the renormalization now, dividing by the maximum value.
-				((ILfloat*)iCurImage->Data)[i] = ((ILfloat*)iCurImage->Data)[i] / MaxF;
+				if (MaxF > 0.0f)
+					((ILfloat*)iCurImage->Data)[i] = ((ILfloat*)iCurImage->Data)[i] / MaxF;
 			}
 			break;
 		case IL_DOUBLE:
@@ -336,8 +342,10 @@ ILboolean iLoadFitsInternal(void)
 				if (((ILdouble*)iCurImage->Data)[i] < 0.0f)
 					((ILdouble*)iCurImage->Data)[i] = 0.0f;
 				// Do the renormalization now, dividing by the maximum value.
-				((ILdouble*)iCurImage->Data)[i] = ((ILdouble*)iCurImage->Data)[i] / MaxD;
-			}			break;
+				if (MaxD > 0.0)
+					((ILdouble*)iCurImage->Data)[i] = ((ILdouble*)iCurImage->Data)[i] / MaxD;
+			}
+			break;
 	}
 
 	return ilFixImage();
-- 
2.43.0


From 40f1cec0fe68e7461922c4eab1fbd8ce18dee0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 156/185] fix: LIF: check the dimensions and offset

---
 DevIL/src-IL/src/il_lif.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_lif.cpp b/DevIL/src-IL/src/il_lif.cpp
index 46e39e3..9ac006a 100644
--- a/DevIL/src-IL/src/il_lif.cpp
+++ b/DevIL/src-IL/src/il_lif.cpp
@@ -172,8 +172,14 @@ ILboolean iLoadLifInternal()
 		return IL_FALSE;
 	}
 	
-	if (!iGetLifHead(&LifHead))
+	if (!iGetLifHead(&LifHead) || !iCheckLif(&LifHead)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
+	if ((ILuint64)LifHead.Width * LifHead.Height > iBytesLeft()) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	if (!ilTexImage(LifHead.Width, LifHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
@@ -186,7 +192,7 @@ ILboolean iLoadLifInternal()
 	iCurImage->Pal.PalSize = 1024;
 	iCurImage->Pal.PalType = IL_PAL_RGBA32;
 
-	if (iread(iCurImage->Data, LifHead.Width * LifHead.Height, 1) != 1)
+	if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
 		return IL_FALSE;
 	if (iread(iCurImage->Pal.Palette, 1, 1024) != 1024)
 		return IL_FALSE;
-- 
2.43.0


From dd3aab860656689d95818006f68bc5cfa91b5df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 157/185] fix: FTX: check the dimensions

---
 DevIL/src-IL/src/il_ftx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_ftx.cpp b/DevIL/src-IL/src/il_ftx.cpp
index caac1fd..926f8df 100644
--- a/DevIL/src-IL/src/il_ftx.cpp
+++ b/DevIL/src-IL/src/il_ftx.cpp
@@ -72,6 +72,11 @@ ILboolean iLoadFtxInternal(void)
 	Height = GetLittleUInt();
 	HasAlpha = GetLittleUInt();  // Kind of backwards from what I would think...
 
+	if ((ILuint64)Width * Height > iBytesLeft() / 4) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
+
 	//@TODO: Right now, it appears that all images are in RGBA format.  See if I can find specs otherwise
 	//  or images that load incorrectly like this.
 	//if (HasAlpha == 0) {  // RGBA format
-- 
2.43.0


From d130ade6108f54619408a5564917b0eb153e81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 158/185] fix: DOOM: check columns and offsets, flats by name

---
 DevIL/src-IL/src/il_doom.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_doom.cpp b/DevIL/src-IL/src/il_doom.cpp
index c618978..2fa2b7c 100644
--- a/DevIL/src-IL/src/il_doom.cpp
+++ b/DevIL/src-IL/src/il_doom.cpp
@@ -80,7 +80,7 @@ ILboolean iLoadDoomInternal()
 	ILint	column_offset, pointer_position, first_pos;
 	ILubyte	post, topdelta, length;
 	ILubyte	*NewData;
-	ILuint	i;
+	ILuint	i, num_posts;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -93,6 +93,12 @@ ILboolean iLoadDoomInternal()
 	graphic_header[0] = GetLittleShort();  // Not even used
 	graphic_header[1] = GetLittleShort();  // Not even used
 
+	// There is an offset for every column.
+	if (width <= 0 || height <= 0 || (ILuint)width > iBytesLeft() / 4) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(width, height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
@@ -114,11 +120,15 @@ ILboolean iLoadDoomInternal()
 		pointer_position = itell();
 		iseek(first_pos + column_offset, IL_SEEK_SET);
 
-		while (1) {
+		for (num_posts = 0; ; num_posts++) {
 			if (iread(&topdelta, 1, 1) != 1)
 				return IL_FALSE;
 			if (topdelta == 255)
 				break;
+			if (num_posts >= (ILuint)height) {  // Every post has at least one row.
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			if (iread(&length, 1, 1) != 1)
 				return IL_FALSE;
 			if (iread(&post, 1, 1) != 1)
@@ -144,9 +154,9 @@ ILboolean iLoadDoomInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
@@ -185,7 +195,7 @@ ILboolean ilLoadDoomFlat(ILconst_string FileName)
 		return bFlat;
 	}
 
-	bFlat = ilLoadDoomF(FlatFile);
+	bFlat = ilLoadDoomFlatF(FlatFile);
 	icloser(FlatFile);
 
 	return bFlat;
@@ -249,9 +259,9 @@ ILboolean iLoadDoomFlatInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
-- 
2.43.0


From 49556dc85df43ff5be1fd6bc97ecefa08b82e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 159/185] fix: DPX: check the header, samples of 16 and 32 bits

---
 DevIL/src-IL/src/il_dpx.cpp | 38 ++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_dpx.cpp b/DevIL/src-IL/src/il_dpx.cpp
index 2baf904..c467c1f 100644
--- a/DevIL/src-IL/src/il_dpx.cpp
+++ b/DevIL/src-IL/src/il_dpx.cpp
@@ -207,17 +207,42 @@ ILboolean iLoadDpxInternal(void)
 			return IL_FALSE;
 	}
 
+	// The 10-bit elements use at least a byte each, too.
+	if ((ILuint64)ImageInfo.Width * ImageInfo.Height > iBytesLeft() / NumChans) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
+
 	// These are all on nice word boundaries.
 	switch (ImageInfo.ImageElement[CurElem].BitSize)
 	{
 		case 8:
-		case 16:
-		case 32:
 			if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, NumChans, Format, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+
+			if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
+				return IL_FALSE;
+			goto finish;
+		case 16:
+			if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, NumChans, Format, IL_UNSIGNED_SHORT, NULL))
+				return IL_FALSE;
+			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+
+			if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
+				return IL_FALSE;
+			for (i = 0; i < iCurImage->SizeOfData / 2; i++)
+				BigUShort((ILushort*)iCurImage->Data + i);
+			goto finish;
+		case 32:  // These are floats.
+			if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, NumChans, Format, IL_FLOAT, NULL))
+				return IL_FALSE;
+			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+
 			if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
 				return IL_FALSE;
+			for (i = 0; i < iCurImage->SizeOfData / 4; i++)
+				BigFloat((ILfloat*)iCurImage->Data + i);
 			goto finish;
 	}
 
@@ -242,7 +267,8 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 2);
+							if (iread(Data, 1, 2) != 2)
+								return IL_FALSE;
 							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
 							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 						}
@@ -256,7 +282,8 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 4);
+							if (iread(Data, 1, 4) != 4)
+								return IL_FALSE;
 							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
 							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 							Val = (((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4)) << 6;  // Use the next 10 bits.
@@ -274,7 +301,8 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 8);
+							if (iread(Data, 1, 8) != 8)
+								return IL_FALSE;
 							Val = (Data[0] << 2) + ((Data[1] & 0xC0) >> 6);  // Use the first 10 bits of the word-aligned data.
 							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 							Val = ((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4);  // Use the next 10 bits.
-- 
2.43.0


From 4fbacf3de7f5479bd159cc625c5c807c02271361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 160/185] fix: MNG: errors while reading, memory kept after
 failures

---
 DevIL/src-IL/src/il_mng.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_mng.cpp b/DevIL/src-IL/src/il_mng.cpp
index 8241c23..5ecf485 100644
--- a/DevIL/src-IL/src/il_mng.cpp
+++ b/DevIL/src-IL/src/il_mng.cpp
@@ -132,13 +132,13 @@ mng_bool MNG_DECL mymngprocessheader(mng_handle mng, mng_uint32 width, mng_uint3
 	AlphaDepth = mng_get_alphadepth(mng);
 
 	if (AlphaDepth == 0) {
-		ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL);
-		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+		if (!ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGR8);
 	}
 	else {  // Use alpha channel
-		ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+		if (!ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGRA8);
 	}
 
@@ -247,7 +247,8 @@ ILboolean ilLoadMngL(const void *Lump, ILuint Size)
 
 ILboolean iLoadMngInternal()
 {
-	mng_handle mng;
+	mng_handle	mng;
+	mng_retcode	Ret;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -274,8 +275,16 @@ ILboolean iLoadMngInternal()
 	mng_setcb_getcanvasline(mng, mymnggetcanvasline);
 	mng_setcb_refresh(mng, mymngrefresh);
 
-	mng_read(mng);
-	mng_display(mng);
+	Ret = mng_read(mng);
+	if (Ret == MNG_NOERROR)
+		Ret = mng_display(mng);
+	mng_cleanup(&mng);
+
+	// An animation waits for its next frame, but we only have the first one.
+	if (Ret != MNG_NOERROR && Ret != MNG_NEEDTIMERWAIT) {
+		ilSetError(IL_LIB_MNG_ERROR);
+		return IL_FALSE;
+	}
 
 	return ilFixImage();
 }
-- 
2.43.0


From 2d68b44c8d3b7bb5c5103d6b67fd7a192dc917e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 161/185] fix: TEXTURE: skip the header when loading from
 memory

---
 DevIL/src-IL/src/il_texture.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_texture.cpp b/DevIL/src-IL/src/il_texture.cpp
index 27d0c7a..11fea2c 100644
--- a/DevIL/src-IL/src/il_texture.cpp
+++ b/DevIL/src-IL/src/il_texture.cpp
@@ -55,11 +55,13 @@ ILboolean ilLoadTextureF(ILHANDLE File)
 //! Reads from a memory "lump" that contains a TEXTURE
 ILboolean ilLoadTextureL(const void *Lump, ILuint Size)
 {
-	iSetInputLump(Lump, Size);
+	if (Lump == NULL || Size < 48) {
+		ilSetError(Lump == NULL ? IL_INVALID_PARAM : IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
-	iseek(48, IL_SEEK_CUR);
-	return ilLoadDdsL(Lump, Size);
+	return ilLoadDdsL((const ILubyte*)Lump + 48, Size - 48);
 }
 
 #endif//IL_NO_TEXTURE
-- 
2.43.0


From 4d4526bf33aec7f18acc38ea933c47df63033c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 162/185] fix: iSwapDouble lost half of the bytes

---
 DevIL/src-IL/src/il_endian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 0c7ff2a..7e16bcf 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -74,7 +74,7 @@ void iSwapDouble(ILdouble *d) {
 		: "r"  (t[0]), "r"  (t[1]));
 	#else
 	ILubyte t,*b = (ILubyte*)d;
-	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=b[x];
+	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=t;
 	dswap(0,7);
 	dswap(1,6);
 	dswap(2,5);
-- 
2.43.0


From 9f4f1ebeaaa3c58cdefc5edcff50b3a5e2bb65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 163/185] fix: icons and BMP: report an offset that cannot be
 reached

---
 DevIL/src-IL/src/il_bmp.cpp  | 12 +++++++++---
 DevIL/src-IL/src/il_icon.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index a890b77..8908553 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -365,8 +365,10 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
-	if (iseek(Header->bfDataOff, IL_SEEK_SET))
+	if (iseek(Header->bfDataOff, IL_SEEK_SET)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	// We have to handle 1 and 4-bit images separately, because we have to expand them.
 	switch (Header->biBitCount)
@@ -585,8 +587,10 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
-	if (iseek(Header->bfDataOff, IL_SEEK_SET))
+	if (iseek(Header->bfDataOff, IL_SEEK_SET)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
     while (offset < iCurImage->SizeOfData) {
 		if (iread(Bytes, sizeof(Bytes), 1) != 1)
@@ -657,8 +661,10 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
-	if (iseek(Header->bfDataOff, IL_SEEK_SET))
+	if (iseek(Header->bfDataOff, IL_SEEK_SET)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	while (offset < iCurImage->SizeOfData) {
       int align;
diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index d1c4c40..7ffb500 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -114,8 +114,10 @@ static ILboolean iLoadIconDib(ILboolean First, ILimage **Last, ILboolean *Skippe
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	if (Head.Size > 40 && iseek(Head.Size - 40, IL_SEEK_CUR) != 0)
+	if (Head.Size > 40 && iseek(Head.Size - 40, IL_SEEK_CUR) != 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	Width = Head.Width;
 	Height = Head.Height / 2;
@@ -221,7 +223,12 @@ ILboolean iLoadIconInternal()
 		Offset = Entry[12] | Entry[13] << 8 | Entry[14] << 16 | (ILuint)Entry[15] << 24;
 
 		// 08-22-2008: Adding test for compressed PNG data
-		Ok = iseek(Offset, IL_SEEK_SET) == 0 && iread(Signature, 1, 4) == 4 && iseek(Offset, IL_SEEK_SET) == 0;
+		if (iseek(Offset, IL_SEEK_SET) != 0) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			ifree(Entries);
+			return IL_FALSE;
+		}
+		Ok = iread(Signature, 1, 4) == 4 && iseek(Offset, IL_SEEK_SET) == 0;
 		Skipped = IL_FALSE;
 		if (Ok) {
 			if (!strnicmp((char*)Signature + 1, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
-- 
2.43.0


From b43bee28d3623ed07cd1c028ef67590e5092a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 164/185] fix: loading bytes of unknown type reports an error

---
 DevIL/src-IL/src/il_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index dc62dde..510cf4d 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1465,6 +1465,7 @@ static ILboolean iLoadFromFile(ILenum Type, ILHANDLE File)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
@@ -1747,6 +1748,7 @@ static ILboolean iLoadFromLump(ILenum Type, const void *Lump, ILuint Size)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
-- 
2.43.0


From 64c77707ef96f4339fca442c132527af706b7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 165/185] fix: ilModAlpha clamps its value and sets the alpha
 of half-float images

---
 DevIL/src-IL/src/il_manip.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index ade5171..1bf5635 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -863,6 +863,8 @@ void ILAPIENTRY ilModAlpha(ILdouble AlphaValue)
     if (!ret)
 		return;
 
+    AlphaValue = IL_CLAMP(AlphaValue);
+
     switch (iCurImage->Type)
 	{
         case IL_BYTE:
@@ -883,6 +885,12 @@ void ILAPIENTRY ilModAlpha(ILdouble AlphaValue)
             for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
                 ((ILuint*)iCurImage->Data)[i] = Alpha.alpha_int;
             break;
+        case IL_HALF:
+            Alpha.alpha_float = (ILfloat)AlphaValue;
+            Alpha.alpha_short = ilFloatToHalf(Alpha.alpha_int);
+            for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
+                ((ILushort*)iCurImage->Data)[i] = Alpha.alpha_short;
+            break;
         case IL_FLOAT:
             Alpha.alpha_float = (ILfloat)AlphaValue;
             for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
-- 
2.43.0


From 19b302fe122cdb217e3a72f2c1f4b7e87d358195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 166/185] fix: ILBM: the PackBits byte 0x80 is a no-op

---
 DevIL/src-IL/src/il_ilbm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index da23d29..ca09849 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -525,6 +525,9 @@ static ILboolean load_ilbm(void)
                         goto done;
                     }
 
+                    if ( count == 0x80 )    /* Does nothing */
+                        continue;
+
                     if ( count & 0x80 )
                     {
                         count ^= 0xFF;
-- 
2.43.0


From 2727b30aa460592ad68b05ba5da517852969abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 167/185] fix: KTX files are recognised by their identifier

---
 DevIL/src-IL/src/il_ktx.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index fa3ea98..ef555bc 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -129,13 +129,16 @@ ILboolean ilIsValidKtxL(const void *Lump, ILuint Size)
 
 ILboolean iIsValidKtx()
 {
-	ILubyte 	Signature[8];
+	static const ILubyte	Identifier[12] = {
+		0xAB, 'K', 'T', 'X', ' ', '1', '1', 0xBB, '\r', '\n', 0x1A, '\n'
+	};
+	ILubyte 	Signature[12];
 	ILint		Read;
 
-	/*Read = iread(Signature, 1, 8);
-	iseek(-Read, IL_SEEK_CUR);*/
+	Read = iread(Signature, 1, 12);
+	iseek(-Read, IL_SEEK_CUR);
 
-	return IL_FALSE;
+	return Read == 12 && memcmp(Signature, Identifier, 12) == 0;
 }
 
 
-- 
2.43.0


From 9e445fd9e2cbb6b3b500b3b2739a8c4f3ca332e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 168/185] fix: BLP1 files are valid; JPEG ones load from
 streams and lumps and obey the loading modes

---
 DevIL/src-IL/src/il_blp.cpp | 44 +++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index d037bf1..f713d6e 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -61,6 +61,7 @@ typedef struct BLP2HEAD
 #define BLP_RAW_NO_ALPHA	5
 
 
+ILboolean iIsValidBlp(void);
 ILboolean iIsValidBlp2(void);
 ILboolean iCheckBlp2(BLP2HEAD *Header);
 ILboolean iLoadBlpInternal(void);
@@ -101,7 +102,7 @@ ILboolean ilIsValidBlpF(ILHANDLE File)
 	
 	iSetInputFile(File);
 	FirstPos = itell();
-	bRet = iIsValidBlp2();
+	bRet = iIsValidBlp();
 	iseek(FirstPos, IL_SEEK_SET);
 	
 	return bRet;
@@ -112,7 +113,7 @@ ILboolean ilIsValidBlpF(ILHANDLE File)
 ILboolean ilIsValidBlpL(const void *Lump, ILuint Size)
 {
 	iSetInputLump(Lump, Size);
-	return iIsValidBlp2();
+	return iIsValidBlp();
 }
 
 
@@ -552,6 +553,24 @@ ILboolean iCheckBlp1(BLP1HEAD *Header)
 }
 
 
+// Internal function to get the header and check it, for both versions of the format.
+ILboolean iIsValidBlp(void)
+{
+	BLP1HEAD	Header;
+	ILuint		Pos = itell();
+	ILboolean	Complete;
+
+	if (iIsValidBlp2())
+		return IL_TRUE;
+
+	iGetBlp1Head(&Header);
+	Complete = itell() - Pos == 156;
+	iseek(Pos, IL_SEEK_SET);
+
+	return Complete && iCheckBlp1(&Header);
+}
+
+
 ILboolean iLoadBlp1()
 {
 	BLP1HEAD	Header;
@@ -562,6 +581,7 @@ ILboolean iLoadBlp1()
 #ifndef IL_NO_JPG
 	ILubyte		*JpegHeader, *JpegData;
 	ILuint		JpegHeaderSize;
+	ILboolean	JpegLoaded, OriginSet, FormatSet, TypeSet;
 #endif//IL_NO_JPG
 
 	if (!iGetBlp1Head(&Header))
@@ -610,8 +630,24 @@ ILboolean iLoadBlp1()
 					return IL_FALSE;
 				}
 
-				// Just send the data straight to the Jpeg loader.
-				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
+				// The Jpeg loader makes the lump the input, so go back to the start of the file while we can.
+				iseek(0, IL_SEEK_SET);
+				// Just send the data straight to the Jpeg loader, which must not convert it yet, since its
+				//  colours are not in the order that it assumes.
+				OriginSet = ilIsEnabled(IL_ORIGIN_SET);
+				FormatSet = ilIsEnabled(IL_FORMAT_SET);
+				TypeSet = ilIsEnabled(IL_TYPE_SET);
+				ilDisable(IL_ORIGIN_SET);
+				ilDisable(IL_FORMAT_SET);
+				ilDisable(IL_TYPE_SET);
+				JpegLoaded = ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i]);
+				if (OriginSet)
+					ilEnable(IL_ORIGIN_SET);
+				if (FormatSet)
+					ilEnable(IL_FORMAT_SET);
+				if (TypeSet)
+					ilEnable(IL_TYPE_SET);
+				if (!JpegLoaded) {
 					ifree(JpegData);
 					ifree(JpegHeader);
 					return IL_FALSE;
-- 
2.43.0


From a5963285bf7706eeafb293bad9f9dfa4a7a949e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 169/185] fix: loading a TEXTURE from a handle puts the
 position back

---
 DevIL/src-IL/src/il_texture.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_texture.cpp b/DevIL/src-IL/src/il_texture.cpp
index 11fea2c..64728f1 100644
--- a/DevIL/src-IL/src/il_texture.cpp
+++ b/DevIL/src-IL/src/il_texture.cpp
@@ -12,6 +12,7 @@
 //-----------------------------------------------------------------------------
 
 #include "il_internal.h"
+#include "il_dds.h"
 #ifndef IL_NO_TEXTURE
 
 
@@ -45,7 +46,7 @@ ILboolean ilLoadTextureF(ILHANDLE File)
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
 	iseek(48, IL_SEEK_CUR);
-	bRet = ilLoadDdsF(File);
+	bRet = iLoadDdsInternal();  // ilLoadDdsF would take the current position as the start of the file.
 	iseek(FirstPos, IL_SEEK_SET);
 	
 	return bRet;
-- 
2.43.0


From 420b1a3e46fd73f52f9506c8ce3276bca2e570c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 170/185] fix: TPL: CMPR, IA4, IA8, RGBA8 and CI14X2 are
 decoded in the format's bit order

---
 DevIL/src-IL/src/il_tpl.cpp | 50 +++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index 260a7ee..cbff8ad 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -197,13 +197,13 @@ ILboolean iLoadTplInternal(void)
 	TPLHEAD		Header;
 	ILimage		*Image/*, *BaseImage*/;
 	ILuint		Pos, TexOff, PalOff, DataFormat, Bpp, DataOff, WrapS, WrapT;
-	ILuint		x, y, xBlock, yBlock, i, j, k, n, TileW, TileH, TileSize;
+	ILuint		x, y, xBlock, yBlock, i, j, n, TileW, TileH, TileSize;
 	ILenum		Format;
 	ILushort	Width, Height;
 	ILubyte		CompData[8];
 	Color8888	colours[4], *col;
 	ILushort	color_0, color_1;
-	ILuint		bitmask, Select;
+	ILuint		Select;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -356,18 +356,17 @@ ILboolean iLoadTplInternal(void)
 				//@TODO: Make this/that code a bit more modular.
 				for (y = 0; y < Image->Height; y += 8) {
 					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 8 && (y + yBlock) < Image->Height; yBlock += 4) {
-							for (xBlock = 0; xBlock < 8 && (x + xBlock) < Image->Width; xBlock += 4) {
+						// Tiles are always complete in the file, even where they exceed the image.
+						for (yBlock = 0; yBlock < 8; yBlock += 4) {
+							for (xBlock = 0; xBlock < 8; xBlock += 4) {
 								if (iread(CompData, 1, 8) != 8)
 									return IL_FALSE;  //@TODO: Need to do any cleanup here?
-								color_0 = *((ILushort*)CompData);
-								UShort(&color_0);
-								color_1 = *((ILushort*)(CompData + 2));
-								UShort(&color_1);
+								// Unlike in a DXT1 block, everything is big endian here.
+								color_0 = (CompData[0] << 8) | CompData[1];
+								color_1 = (CompData[2] << 8) | CompData[3];
 								DxtcReadColor(color_0, colours);
 								DxtcReadColor(color_1, colours + 1);
-								bitmask = ((ILuint*)CompData)[1];
-								UInt(&bitmask);
+								colours[0].a = colours[1].a = colours[2].a = 0xFF;
 
 								if (color_0 > color_1) {
 									// Four-color block: derive the other two colors.
@@ -377,7 +376,6 @@ ILboolean iLoadTplInternal(void)
 									colours[2].b = (2 * colours[0].b + colours[1].b + 1) / 3;
 									colours[2].g = (2 * colours[0].g + colours[1].g + 1) / 3;
 									colours[2].r = (2 * colours[0].r + colours[1].r + 1) / 3;
-									//colours[2].a = 0xFF;
 
 									colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
 									colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
@@ -393,7 +391,6 @@ ILboolean iLoadTplInternal(void)
 									colours[2].b = (colours[0].b + colours[1].b) / 2;
 									colours[2].g = (colours[0].g + colours[1].g) / 2;
 									colours[2].r = (colours[0].r + colours[1].r) / 2;
-									//colours[2].a = 0xFF;
 
 									colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
 									colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
@@ -401,9 +398,9 @@ ILboolean iLoadTplInternal(void)
 									colours[3].a = 0x00;
 								}
 
-								for (j = 0, k = 0; j < 4; j++) {
-									for (i = 0; i < 4; i++, k++) {
-										Select = (bitmask & (0x03 << k*2)) >> k*2;
+								for (j = 0; j < 4; j++) {
+									for (i = 0; i < 4; i++) {
+										Select = (CompData[4 + j] >> (6 - i*2)) & 0x03;
 										col = &colours[Select];
 
 										if (((x + xBlock + i) < Image->Width) && ((y + yBlock + j) < Image->Height)) {
@@ -461,12 +458,12 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 			Image->Pal.PalSize = NumPal * 4;
 
 			for (i = 0; i < NumPal; i++) {
+				Image->Pal.Palette[i * 4 + 3] = igetc();  // The alpha value comes first.
 				LumVal = igetc();
 				//@TODO: Do proper conversion of luminance, or support this format natively.
 				Image->Pal.Palette[i * 4] = LumVal;  // Assign the luminance value.
 				Image->Pal.Palette[i * 4 + 1] = LumVal;
 				Image->Pal.Palette[i * 4 + 2] = LumVal;
-				Image->Pal.Palette[i * 4 + 3] = igetc();  // Get alpha value.
 			}
 			break;
 
@@ -608,14 +605,14 @@ ILboolean TplGetTiles(ILimage *Image, ILuint DataFormat, ILuint PalFormat)
 							Dest[0] = Tile[Pixel];
 							break;
 
-						case TPL_IA4:  // 8x4 tiles of 4-bit intensity and 4-bit alpha values
-							Dest[0] = (Tile[Pixel] & 0xF0) | (Tile[Pixel] & 0xF0) >> 4;
-							Dest[1] = (Tile[Pixel] & 0x0F) << 4 | (Tile[Pixel] & 0x0F);
+						case TPL_IA4:  // 8x4 tiles of 4-bit alpha and 4-bit intensity values
+							Dest[1] = (Tile[Pixel] & 0xF0) | (Tile[Pixel] & 0xF0) >> 4;
+							Dest[0] = (Tile[Pixel] & 0x0F) << 4 | (Tile[Pixel] & 0x0F);
 							break;
 
-						case TPL_IA8:  // 4x4 tiles of 8-bit intensity and 8-bit alpha values
-							Dest[0] = Src[0];
-							Dest[1] = Src[1];
+						case TPL_IA8:  // 4x4 tiles of 8-bit alpha and 8-bit intensity values
+							Dest[1] = Src[0];
+							Dest[0] = Src[1];
 							break;
 
 						case TPL_RGB565:  // 4x4 tiles of RGB565 data
@@ -639,19 +636,18 @@ ILboolean TplGetTiles(ILimage *Image, ILuint DataFormat, ILuint PalFormat)
 							}
 							break;
 
-						case TPL_RGBA8:  // 4x4 tiles, with the AR data of a row followed by its GB data
-							Src = Tile + yBlock * 16 + xBlock * 2;
+						case TPL_RGBA8:  // 4x4 tiles, with the AR data of all pixels followed by their GB data
 							Dest[3] = Src[0];
 							Dest[0] = Src[1];
-							Dest[1] = Src[8];
-							Dest[2] = Src[9];
+							Dest[1] = Src[32];
+							Dest[2] = Src[33];
 							break;
 
 						//@TODO: Convert to more formats than just RGBA.
 						case TPL_CI14X2:
 							// 4x4 tiles of 14-bit indices into a palette.  Not supported at all in DevIL, since
 							//  it has a huge palette (> 256 colors).  Convert to RGBA.
-							ShortPixel >>= 2;  // Lower 2 bits are padding bits.
+							ShortPixel &= 0x3FFF;  // Upper 2 bits are padding bits.
 							if ((ShortPixel + 1u) * PalBpp > Image->Pal.PalSize) {
 								ilSetError(IL_ILLEGAL_FILE_VALUE);
 								return IL_FALSE;
-- 
2.43.0


From 6435fb6d1310df6b5f8366da47c2477f0b238a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 171/185] fix: ilLoad of IL_PCD returns whether the file was
 loaded

---
 DevIL/src-IL/src/il_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 510cf4d..c408ff6 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1297,7 +1297,7 @@ static ILboolean iLoadByType(ILenum Type, ILconst_string FileName)
 
 		#ifndef IL_NO_PCD
 		case IL_PCD:
-			ilLoadPcd(FileName);
+			bRet = ilLoadPcd(FileName);
 			break;
 		#endif
 
-- 
2.43.0


From df5149544a569eea387c5e18a59391368fbf386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 172/185] fix: XPM loading obeys the loading modes

---
 DevIL/src-IL/src/il_xpm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 46465e9..c459348 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -679,7 +679,7 @@ ILboolean iLoadXpmInternal()
 #else
 	ifree(Colours);
 #endif
-	return IL_TRUE;
+	return ilFixImage();
 
 #undef BUFFER_SIZE
 }
-- 
2.43.0


From c7d66762d2f821c8de96c2714444a31fc94acf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 173/185] fix: XPM: a colour that cannot be stored and a
 comment that cannot be read to its end make the load fail

---
 DevIL/src-IL/src/il_xpm.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index c459348..533eafe 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -197,19 +197,21 @@ void XpmDestroyHashTable(XPMHASHENTRY **Table)
 }
 
 
-void XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
+ILboolean XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
 {
 	XPMHASHENTRY* NewEntry;
 	ILuint Index;
 	Index = XpmHash(Name, Len);
 
 	NewEntry = (XPMHASHENTRY*)ialloc(sizeof(XPMHASHENTRY));
-	if (NewEntry != NULL) {
-		NewEntry->Next = Table[Index];
-		memcpy(NewEntry->ColourName, Name, Len);
-		memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
-		Table[Index] = NewEntry;
-	}
+	if (NewEntry == NULL)
+		return IL_FALSE;
+
+	NewEntry->Next = Table[Index];
+	memcpy(NewEntry->ColourName, Name, Len);
+	memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
+	Table[Index] = NewEntry;
+	return IL_TRUE;
 }
 
 
@@ -238,8 +240,6 @@ ILint XpmGetsInternal(ILubyte *Buffer, ILint MaxLen)
 		return IL_EOF;
 
 	while ((Current = igetc()) != IL_EOF && i < MaxLen - 1) {
-		if (Current == IL_EOF)
-			return 0;
 		if (Current == '\n') //unix line ending
 			break;
 
@@ -257,6 +257,9 @@ ILint XpmGetsInternal(ILubyte *Buffer, ILint MaxLen)
 		Buffer[i++] = (ILubyte)Current;
 	}
 
+	if (Current == IL_EOF && i == 0)  // Nothing could be read.
+		return IL_EOF;
+
 	Buffer[i++] = 0;
 
 	return i;
@@ -475,7 +478,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 #ifndef XPM_DONT_USE_HASHTABLE
 		memset(Colour, 0, sizeof(Colour));
 		Colour[3] = 255;
-		XpmInsertEntry(Table, Name, Len, Colour);
+		return XpmInsertEntry(Table, Name, Len, Colour);
 #else
 		memset(Colours[Name[0]], 0, sizeof(Colour));
 		Colours[Name[0]][3] = 255;
@@ -539,7 +542,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 
 
 #ifndef XPM_DONT_USE_HASHTABLE
-	XpmInsertEntry(Table, Name, Len, Colour);
+	return XpmInsertEntry(Table, Name, Len, Colour);
 #else
 	memcpy(Colours[Name[0]], Colour, sizeof(Colour));
 #endif
-- 
2.43.0


From c093679ff847b2559f7d9936da7e73ac216660ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 174/185] fix: XPM: colours besides others for mono or grey
 visuals, of one digit per channel and of unknown names

---
 DevIL/src-IL/src/il_xpm.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 533eafe..43abd44 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -409,10 +409,10 @@ ILboolean XpmPredefCol(char *Buff, XpmPixel *Colour)
 	//check for grayXXX codes (added 20040218)
 	len = ilCharStrLen(Buff);
 	if (len >= 4) {
-		if (Buff[0] == 'g' || Buff[0] == 'G'
-			|| Buff[1] == 'r' || Buff[1] == 'R'
-			|| Buff[2] == 'a' || Buff[2] == 'A'
-			|| Buff[3] == 'y' || Buff[3] == 'Y') {
+		if ((Buff[0] == 'g' || Buff[0] == 'G')
+			&& (Buff[1] == 'r' || Buff[1] == 'R')
+			&& (Buff[2] == 'a' || Buff[2] == 'A' || Buff[2] == 'e' || Buff[2] == 'E')
+			&& (Buff[3] == 'y' || Buff[3] == 'Y')) {
 			if (isdigit(Buff[4])) { // isdigit returns false on '\0'
 				val = Buff[4] - '0';
 				if (isdigit(Buff[5])) {
@@ -467,14 +467,14 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 		Name[j] = Buffer[i++];
 	}
 
-	// Skip to the colour definition.
+	// Skip to the colour definition.  The values for other visuals can contain the letter, too.
 	for ( ; i < Size; i++) {
-		if (Buffer[i] == 'c')
+		if (Buffer[i] == 'c' && isspace(Buffer[i-1]) && i + 1 < Size && isspace(Buffer[i+1]))
 			break;
 	}
 	i++;  // Skip the 'c'.
 
-	if (i >= Size || Buffer[i] != ' ') { // no 'c' found...assume black
+	if (i >= Size) { // no 'c' found...assume black
 #ifndef XPM_DONT_USE_HASHTABLE
 		memset(Colour, 0, sizeof(Colour));
 		Colour[3] = 255;
@@ -487,7 +487,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 	}
 
 	for ( ; i < Size; i++) {
-		if (Buffer[i] != ' ')
+		if (!isspace(Buffer[i]))
 			break;
 	}
 
@@ -516,7 +516,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 			}
 			else if(j < strLen) { // 1 digit, strLen >= 1
 				ColBuff[0] = Buffer[i + j];
-				ColBuff[1] = 0;
+				ColBuff[1] = ColBuff[0];
 			}
 
 			ColBuff[2] = 0; // add terminating '\0' char
-- 
2.43.0


From b6bcd1fd9ab162c947c57217b782019bfc354c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 175/185] fix: UTX: a failing read does not lead to an endless
 loop

---
 DevIL/src-IL/src/il_utx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index d733e73..ec55ca7 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -438,7 +438,10 @@ static ILboolean iLoadUtxTables(void)
 				}
 				if (NameEntries[Name].Name == "None")
 					break;
-				Type = igetc();
+				Val = igetc();
+				if (Val == IL_EOF)
+					return IL_FALSE;
+				Type = (ILubyte)Val;
 				Size = (Type & 0x70) >> 4;
 
 				if (Type == 0xA2)
-- 
2.43.0


From d761b6cbc9aff7df257c408012a9d024842ac218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 176/185] fix: KTX: files without all of the header are
 refused, those without mipmap levels have their image read

---
 DevIL/src-IL/src/il_ktx.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index ef555bc..533ea96 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -189,7 +189,7 @@ ILboolean ilLoadKtxL(const void *Lump, ILuint Size)
 ILboolean iLoadKtxInternal()
 {
 	KTX_HEAD	Header;
-	ILuint		imageSize;
+	ILuint		imageSize, FirstPos;
 	ILenum		Format, Type, Origin;
 	ILubyte		Bpp, Bpc;
 	ILboolean	Compressed;
@@ -207,6 +207,7 @@ ILboolean iLoadKtxInternal()
 	Header.Height = GetLittleShort();
 	Header.Dummy = GetLittleInt();*/
 
+	FirstPos = itell();
 	if (iread(Header.identifier, 1, 12) != 12)
 		return IL_FALSE;
 	Header.endianness = GetLittleUInt();
@@ -222,6 +223,10 @@ ILboolean iLoadKtxInternal()
 	Header.numberOfFaces = GetLittleUInt();
 	Header.numberOfMipmapLevels = GetLittleUInt();
 	Header.bytesOfKeyValueData = GetLittleUInt();
+	if (itell() - FirstPos != 64) {  // The header is not complete.
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	if (memcmp(Header.identifier, FileIdentifier, 12) || Header.endianness != 0x04030201) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -240,6 +245,10 @@ ILboolean iLoadKtxInternal()
 		return IL_FALSE;
 	}*/
 
+	// The mipmaps are to be generated in this case, so there is only the image itself.
+	if (Header.numberOfMipmapLevels == 0)
+		Header.numberOfMipmapLevels = 1;
+
 	//@TODO: Mipmaps, etc.
 	if (Header.numberOfArrayElements != 0 || Header.numberOfFaces != 1 /*|| Header.numberOfMipmapLevels != 1*/)
 	{
-- 
2.43.0


From 571851b1c9c4b904691223184c80445145a1b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 177/185] fix: DICOM files without all pixels are refused

---
 DevIL/src-IL/src/il_dicom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_dicom.cpp b/DevIL/src-IL/src/il_dicom.cpp
index 70fa971..fab62fa 100644
--- a/DevIL/src-IL/src/il_dicom.cpp
+++ b/DevIL/src-IL/src/il_dicom.cpp
@@ -548,7 +548,7 @@ ILboolean iLoadDicomInternal(void)
 	// Header.DataLen may be larger than SizeOfData, since it has to be padded with a NULL if it is not an even length,
 	//   so we just test to make sure it is at least large enough.
 	//@TODO: Do this check before ilTexImage call.
-	if (Header.DataLen < iCurImage->SizeOfData) {
+	if (Header.DataLen < iCurImage->SizeOfData || iCurImage->SizeOfData > iBytesLeft()) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-- 
2.43.0


From 3f6b8d5ad124a9f6ffe1a75f2908eac8847f6278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 178/185] fix: TPL files without a texture header are refused

---
 DevIL/src-IL/src/il_tpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index cbff8ad..a84cd2f 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -232,6 +232,10 @@ ILboolean iLoadTplInternal(void)
 			return IL_FALSE;
 		}
 
+		if (iBytesLeft() < 4) {  // The texture header is not in the file.
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 		Height = GetBigUShort();
 		Width = GetBigUShort();
 		// It looks like files actually have n-1 images, with the nth one having 0 height and width.
@@ -245,6 +249,10 @@ ILboolean iLoadTplInternal(void)
 			break;
 		}
 
+		if (iBytesLeft() < 32) {  // The rest of the texture header is not in the file.
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 		DataFormat = GetBigUInt();
 		TexOff = GetBigUInt();
 		WrapS = GetBigUInt();
-- 
2.43.0


From f9c897c0ba378ef764a13795172b39268c3182a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 179/185] fix: ROT files that end within the head of a mipmap
 are refused

---
 DevIL/src-IL/src/il_rot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_rot.cpp b/DevIL/src-IL/src/il_rot.cpp
index da7ef06..cb7cf2a 100644
--- a/DevIL/src-IL/src/il_rot.cpp
+++ b/DevIL/src-IL/src/il_rot.cpp
@@ -151,7 +151,7 @@ ILboolean iLoadRotInternal(void)
 	do {
 		// Then we have 'FORM' again.
 		if (iBytesLeft() < 12) {
-			if (!BaseCreated) {
+			if (!BaseCreated || iBytesLeft() != 0) {
 				ilSetError(IL_FILE_READ_ERROR);
 				return IL_FALSE;
 			}
-- 
2.43.0


From 34595560c93aeb88bb87c85d1fba63ea66775ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 180/185] fix: PSP files that end within a block are refused

---
 DevIL/src-IL/src/il_psp.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index 0509a2e..f6177e1 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -264,10 +264,13 @@ ILboolean ParseChunks()
 
 	do {
 		iSaveErrors(&Errors);
-		if (iread(&Block, 1, sizeof(Block)) != sizeof(Block)) {
+		Pos = iread(&Block, 1, sizeof(Block));
+		if (Pos == 0) {
 			iRestoreErrors(&Errors);  // Get rid of the erroneous IL_FILE_READ_ERROR.
 			return IL_TRUE;
 		}
+		if (Pos != sizeof(Block))  // The file ends within the header of a block.
+			return IL_FALSE;
 		if (Header.MajorVersion == 3)
 			Block.BlockLen = GetLittleUInt();
 		else
@@ -306,8 +309,10 @@ ILboolean ParseChunks()
 
 		// Skip to next block just in case we didn't read the entire block.
 		iseek(Pos, IL_SEEK_SET);
-		if (Block.BlockLen > iBytesLeft())
-			return IL_TRUE;
+		if (Block.BlockLen > iBytesLeft()) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 		iseek(Pos + Block.BlockLen, IL_SEEK_SET);
 
 		// @TODO: Do stuff here.
-- 
2.43.0


From a9e0bb2fd29824181725d90e49bdbaffe49541d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 181/185] fix: ICNS files shorter than they say are refused

---
 DevIL/src-IL/src/il_icns.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 36341fd..382b160 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -164,7 +164,7 @@ ILboolean iLoadIcnsInternal()
 		return IL_FALSE;
 	}
 
-	while ((ILint)itell() < Header.Size && !ieof())
+	while ((ILint)itell() < Header.Size)
 	{
 		if (iread(Entry.ID, 4, 1) != 1)
 			goto icns_error;
-- 
2.43.0


From efa2ab10998edc5b565b7b65a410be9405fc5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:41 +0000
Subject: [PATCH 182/185] fix: the palette of a BLP, LIF, MDL, TPL or WAL that
 could not be read is not left uninitialised

---
 DevIL/src-IL/src/il_blp.cpp | 10 +++++-----
 DevIL/src-IL/src/il_lif.cpp |  2 +-
 DevIL/src-IL/src/il_tpl.cpp |  6 +++---
 DevIL/src-IL/src/il_wal.cpp |  4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index f713d6e..289e206 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -276,7 +276,7 @@ ILboolean iLoadBlpInternal(void)
 							Image = iCurImage;
 							BaseCreated = IL_TRUE;
 
-							Image->Pal.Palette = (ILubyte*)ialloc(256 * 4);  // 256 entries of ARGB8888 values (1024).
+							Image->Pal.Palette = (ILubyte*)icalloc(256, 4);  // 256 entries of ARGB8888 values (1024).
 							if (Image->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Pal.PalSize = 1024;
@@ -316,7 +316,7 @@ ILboolean iLoadBlpInternal(void)
 							Image = iCurImage;
 							BaseCreated = IL_TRUE;
 
-							Palette = (ILubyte*)ialloc(256 * 4);
+							Palette = (ILubyte*)icalloc(256, 4);
 							if (Palette == NULL)
 								return IL_FALSE;
 
@@ -678,7 +678,7 @@ ILboolean iLoadBlp1()
 							BaseCreated = IL_TRUE;
 
 							// We have a BGRA palette.
-							Image->Pal.Palette = (ILubyte*)ialloc(256 * 4);
+							Image->Pal.Palette = (ILubyte*)icalloc(256, 4);
 							if (Image->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Pal.PalSize = 1024;
@@ -699,7 +699,7 @@ ILboolean iLoadBlp1()
 								return IL_FALSE;
 
 							// Copy the palette from the first image before we change our Image pointer.
-							Image->Mipmaps->Pal.Palette = (ILubyte*)ialloc(256 * 4);
+							Image->Mipmaps->Pal.Palette = (ILubyte*)icalloc(256, 4);
 							if (Image->Mipmaps->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Mipmaps->Pal.PalSize = 1024;
@@ -727,7 +727,7 @@ ILboolean iLoadBlp1()
 						return IL_FALSE;
 
 					DataAndAlpha = (ILubyte*)ialloc(Header.Width * Header.Height);
-					Palette = (ILubyte*)ialloc(256 * 4);
+					Palette = (ILubyte*)icalloc(256, 4);
 					if (DataAndAlpha == NULL || Palette == NULL) {
 						ifree(DataAndAlpha);
 						ifree(Palette);
diff --git a/DevIL/src-IL/src/il_lif.cpp b/DevIL/src-IL/src/il_lif.cpp
index 9ac006a..ccac9bb 100644
--- a/DevIL/src-IL/src/il_lif.cpp
+++ b/DevIL/src-IL/src/il_lif.cpp
@@ -186,7 +186,7 @@ ILboolean iLoadLifInternal()
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(1024);
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(1024, 1);
 	if (iCurImage->Pal.Palette == NULL)
 		return IL_FALSE;
 	iCurImage->Pal.PalSize = 1024;
diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index a84cd2f..73787a2 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -459,7 +459,7 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 	switch (PalFormat)
 	{
 		case TPL_PAL_IA8:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 4);
+			Image->Pal.Palette = (ILubyte*)icalloc(NumPal, 4);
 			if (Image->Pal.Palette == NULL)
 				return IL_FALSE;
 			Image->Pal.PalType = IL_PAL_RGBA32;  //@TODO: Use this format natively.
@@ -476,7 +476,7 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 			break;
 
 		case TPL_PAL_RGB565:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 3);
+			Image->Pal.Palette = (ILubyte*)icalloc(NumPal, 3);
 			if (Image->Pal.Palette == NULL)
 				return IL_FALSE;
 			Image->Pal.PalType = IL_PAL_RGB24;
@@ -492,7 +492,7 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 			break;
 
 		case TPL_PAL_RGB5A3:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 4);
+			Image->Pal.Palette = (ILubyte*)icalloc(NumPal, 4);
 			if (Image->Pal.Palette == NULL)
 				return IL_FALSE;
 			Image->Pal.PalType = IL_PAL_RGBA32;
diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 16ec881..f40170d 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -124,7 +124,7 @@ ILboolean iLoadWalInternal()
 		if (!ilTexImage(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 			goto cleanup_error;
 		// Not until now, because ilTexImage gets rid of the palette.
-		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
+		Mipmaps[i]->Pal.Palette = (ILubyte*)icalloc(768, 1);
 		if (Mipmaps[i]->Pal.Palette == NULL)
 			goto cleanup_error;
 		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
@@ -146,7 +146,7 @@ ILboolean iLoadWalInternal()
 		ifree(iCurImage->Pal.Palette);
 	iCurImage->Pal.PalSize = 0;
 	iCurImage->Pal.PalType = IL_PAL_NONE;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(768, 1);
 	if (iCurImage->Pal.Palette == NULL)
 		goto cleanup_error;
 
-- 
2.43.0


From 64546594d1e0f2c3bb8b66fe306c9b92c9c38d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:41 +0000
Subject: [PATCH 183/185] fix: MDL: a file too short for its header is not
 valid; a palette that could not be read is not left uninitialised

---
 DevIL/src-IL/src/il_mdl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index ba94a23..3bd2824 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -69,11 +69,14 @@ ILboolean ilIsValidMdlL(const void *Lump, ILuint Size)
 // Internal function to get the header and check it.
 ILboolean iIsValidMdl(void)
 {
-	ILuint Id, Version, Pos = itell();
+	ILuint Id, Version, Pos = itell(), End;
 
 	Id = GetLittleUInt();
 	Version = GetLittleUInt();
+	End = itell();
 	iseek(Pos, IL_SEEK_SET);  // Restore to previous position.
+	if (End - Pos != 8)  // There is not that much.
+		return IL_FALSE;
 
 	// 0x54534449 == "IDST"
 	if (Id != 0x54534449 || Version != 10)
@@ -195,7 +198,7 @@ ILboolean iLoadMdlInternal()
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		}
 
-		TempPal	= (ILubyte*)ialloc(768);
+		TempPal	= (ILubyte*)icalloc(768, 1);
 		if (TempPal == NULL)
 			goto error;
 		iCurImage->Pal.Palette = TempPal;
-- 
2.43.0


From cd1455c7d4578a321111af3ec4af5e94a4dc74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:27 +0000
Subject: [PATCH 184/185] fix: DPX: fill the low bits of 10-bit components from
 their own high bits

---
 DevIL/src-IL/src/il_dpx.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_dpx.cpp b/DevIL/src-IL/src/il_dpx.cpp
index c467c1f..d38809e 100644
--- a/DevIL/src-IL/src/il_dpx.cpp
+++ b/DevIL/src-IL/src/il_dpx.cpp
@@ -269,8 +269,8 @@ ILboolean iLoadDpxInternal(void)
 						for (i = 0; i < NumElements;) {
 							if (iread(Data, 1, 2) != 2)
 								return IL_FALSE;
-							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
+							Val = (Data[0] << 2) + ((Data[1] & 0xC0) >> 6);  // Use the first 10 bits of the word-aligned data.
+							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 						}
 						break;
 
@@ -284,12 +284,12 @@ ILboolean iLoadDpxInternal(void)
 						for (i = 0; i < NumElements;) {
 							if (iread(Data, 1, 4) != 4)
 								return IL_FALSE;
-							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
-							Val = (((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4)) << 6;  // Use the next 10 bits.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Same fill
-							Val = (((Data[2] & 0x0F) << 6) + ((Data[3] & 0xFC) >> 2)) << 6;  // And finally use the last 10 bits (ignores the last 2 bits).
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Same fill
+							Val = (Data[0] << 2) + ((Data[1] & 0xC0) >> 6);  // Use the first 10 bits of the word-aligned data.
+							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
+							Val = ((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4);  // Use the next 10 bits.
+							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Same fill
+							Val = ((Data[2] & 0x0F) << 6) + ((Data[3] & 0xFC) >> 2);  // And finally use the last 10 bits (ignores the last 2 bits).
+							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Same fill
 						}
 						break;
 
-- 
2.43.0


From 42499c644435f8a84ca95b62da3cce9143842557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:22 +0000
Subject: [PATCH 185/185] fix: ilClampNTSC: clamp the palette of an indexed
 image, not its indices, and report other types

---
 DevIL/src-IL/src/il_manip.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 1bf5635..468f8c9 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -920,8 +920,24 @@ ILboolean ILAPIENTRY ilClampNTSC(void)
         return IL_FALSE;
     }
 
-	if (iCurImage->Type != IL_UNSIGNED_BYTE)  // Should we set an error here?
+	if (iCurImage->Type != IL_UNSIGNED_BYTE) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
+	}
+
+	// The colours of an indexed image are in its palette.
+	if (iCurImage->Format == IL_COLOUR_INDEX) {
+		ILubyte Bpp = ilGetBppPal(iCurImage->Pal.PalType);
+		if (iCurImage->Pal.Palette == NULL || Bpp == 0) {
+			ilSetError(IL_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
+		for (x = 0; x + Bpp <= iCurImage->Pal.PalSize; x += Bpp) {
+			for (c = 0; c < 3; c++)
+				iCurImage->Pal.Palette[x + c] = IL_LIMIT(iCurImage->Pal.Palette[x + c], 16, 235);
+		}
+		return IL_TRUE;
+	}
 
 	for (z = 0; z < iCurImage->Depth; z++) {
 		for (y = 0; y < iCurImage->Height; y++) {
-- 
2.43.0

