From 97dcbf476a62dd16ec54f34b1985a18fa407d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 01/35] fix: give every unnamed file a name of its own

The counter was used up while formatting the name, so that every internal
file was called lacsap_tmp_file_000001 and two of them shared their
contents. Programs running in the same directory shared them as well.
---
 runtime/assign.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index d97ce5a..6e9eb7c 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -66,16 +66,11 @@ void __assign(File* f, char* name)
  */
 void __assign_unnamed(File* f)
 {
-    char       name[] = "lacsap_tmp_file_NNNNNN";
-    static int n = 0;
+    static unsigned n = 0;
+    char            name[64];
+
+    // The process id keeps programs that run in the same directory apart.
     n++;
-    n %= MaxPascalFiles;
-    size_t pos = strlen(name) - 1;
-    for (int i = 0; i < 6; i++)
-    {
-	name[pos] = '0' + (n % 10);
-	n /= 10;
-	pos--;
-    }
+    snprintf(name, sizeof(name), "lacsap_tmp_file_%ld_%06u", (long)getpid(), n);
     __assign(f, name);
 }
-- 
2.43.0


From ce08e909f656c9cf3e3f5184ad1efd570a1d6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 02/35] fix: using a file that is not open is an error

A file variable that was never given a file denoted standard input, as both
had handle zero; output to, or input from, a closed file used a null stream,
and so crashed; reading a file that is being written, and writing one that is
being read, was not noticed; eof on a file that is being written read from it.
---
 runtime/assign.c   |  4 ++++
 runtime/fileio.c   | 12 +++++-------
 runtime/getput.c   | 18 +++---------------
 runtime/read.c     | 36 ++++++++----------------------------
 runtime/readbin.c  | 11 +----------
 runtime/runtime.h  | 27 ++++++++++++++++++++++++---
 runtime/seek.c     | 12 ++++++------
 runtime/writebin.c | 11 +----------
 8 files changed, 52 insertions(+), 79 deletions(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index 6e9eb7c..b605089 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -14,6 +14,8 @@ struct FileEntry files[MaxPascalFiles] = {};
  */
 void InitFiles()
 {
+    // A file variable that was never given a file has handle zero, so there must be no such file.
+    files[0].inUse = 1;
     __assign(&input, "INPUT");
     __assign(&output, "OUTPUT");
 
@@ -21,7 +23,9 @@ void InitFiles()
     SetupFile(&output, 1, 1);
 
     files[input.handle].file = stdin;
+    files[input.handle].mode = FileRead;
     files[output.handle].file = stdout;
+    files[output.handle].mode = FileWrite;
 }
 
 /*******************************************
diff --git a/runtime/fileio.c b/runtime/fileio.c
index db62af3..6261137 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -15,13 +15,10 @@ void FileError(const char* op)
 
 void __close(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fclose(files[f->handle].file);
-	files[f->handle].file = NULL;
-	return;
-    }
-    FileError("close");
+    struct FileEntry* fe = getEntry(f, FileRead | FileWrite, "close");
+    fclose(fe->file);
+    fe->file = NULL;
+    fe->mode = FileClosed;
 }
 
 static void OpenFile(File* f, int recSize, int isText, const char* mode)
@@ -40,6 +37,7 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 	files[f->handle].file = fopen(files[f->handle].name, mode);
 	if (files[f->handle].file)
 	{
+	    files[f->handle].mode = (*mode == 'r') ? FileRead : FileWrite;
 	    return;
 	}
     }
diff --git a/runtime/getput.c b/runtime/getput.c
index 2259758..f4d69ba 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -7,21 +7,13 @@
 
 void __put(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
+    struct FileEntry* f = getEntry(file, FileWrite, "write");
     fwrite(file->buffer, file->recordSize, 1, f->file);
 }
 
 int __get(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
+    struct FileEntry* f = getEntry(file, FileRead, "read");
     if (file->isText)
     {
 	int ch = fgetc(f->file);
@@ -43,10 +35,6 @@ int __get(File* file)
 
 void __page(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
+    struct FileEntry* f = getEntry(file, FileWrite, "write");
     fputc('\014', f->file);
 }
diff --git a/runtime/read.c b/runtime/read.c
index 1853b4a..e2b7cfb 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -57,6 +57,11 @@ static int __get_text(File* file)
  */
 int __eof(File* file)
 {
+    // A file that is being written is always at its end.
+    if (getEntry(file, FileRead | FileWrite, "eof")->mode == FileWrite)
+    {
+	return 1;
+    }
     if (!files[file->handle].readAhead)
     {
 	if (!__get_text(file))
@@ -69,6 +74,7 @@ int __eof(File* file)
 
 int __eoln(File* file)
 {
+    getEntry(file, FileRead, "eoln");
     if (!files[file->handle].readAhead)
     {
 	if (!__get_text(file))
@@ -128,6 +134,7 @@ static void file_preread(struct interface* intf)
 
 static void initFile(File* file, struct interface* intf)
 {
+    getEntry(file, FileRead, "read");
     intf->file = file;
     intf->fngetnext = file_get_text;
     intf->fneof = file_eof;
@@ -309,11 +316,6 @@ static void readint64(struct interface* intf, int64_t* v)
 
 void __read_int64(File* file, int64_t* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
     readint64(&intf, v);
@@ -351,11 +353,6 @@ static void readchar(struct interface* intf, char* v)
 
 void __read_chr(File* file, char* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
@@ -426,11 +423,6 @@ static void readreal(struct interface* intf, double* v)
 
 void __read_real(File* file, double* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
@@ -447,6 +439,7 @@ void __read_S_real(String* str, double* v)
 
 void __read_nl(File* file)
 {
+    getEntry(file, FileRead, "read");
     if (!files[file->handle].readAhead)
     {
 	if (!__get_text(file))
@@ -483,11 +476,6 @@ static void readstr(struct interface* intf, String* v)
 
 void __read_str(File* file, String* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
@@ -517,10 +505,6 @@ static void readchars(struct interface* intf, char* v)
 
 void __read_chars(File* file, char* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
     struct interface intf;
     initFile(file, &intf);
 
@@ -579,10 +563,6 @@ static void readbool(struct interface* intf, int* b)
 
 void __read_bool(File* file, int* b)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
     struct interface intf;
     initFile(file, &intf);
 
diff --git a/runtime/readbin.c b/runtime/readbin.c
index e320233..909d871 100644
--- a/runtime/readbin.c
+++ b/runtime/readbin.c
@@ -3,16 +3,7 @@
 
 void __read_bin(File* file, void* val)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    if (!f)
-    {
-	fprintf(stderr, "Invalid file used for read binary\n");
-	return;
-    }
+    getEntry(file, FileRead, "read");
     memcpy(val, file->buffer, file->recordSize);
     __get(file);
 }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index eea64f8..43dcf42 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -26,12 +26,21 @@ typedef struct File
     int   isText;
 } File;
 
+/* What a file is open for. */
+enum FileMode
+{
+    FileClosed = 0,
+    FileRead = 1,
+    FileWrite = 2,
+};
+
 struct FileEntry
 {
     File* fileData;
     FILE* file;
     char* name;
     int   inUse;
+    int   mode;
     int   readAhead;
     int   readPos;
     int   bufferSize;
@@ -101,15 +110,27 @@ void FileError(const char* op);
  * File Basics, low level I/O.
  *******************************************
  */
-static inline FILE* getFile(File* f)
+/* The entry of a file that is open in one of the given modes, anything else is an error. */
+static inline struct FileEntry* getEntry(File* f, int modes, const char* op)
 {
-    if (f->handle < MaxPascalFiles && files[f->handle].inUse)
+    if (f->handle > 0 && f->handle < MaxPascalFiles)
     {
-	return files[f->handle].file;
+	struct FileEntry* fe = &files[f->handle];
+	if (fe->inUse && fe->file && (fe->mode & modes))
+	{
+	    return fe;
+	}
     }
+    FileError(op);
     return NULL;
 }
 
+/* The stream of a file that is open for writing. */
+static inline FILE* getFile(File* f)
+{
+    return getEntry(f, FileWrite, "write")->file;
+}
+
 int  __get(File* file);
 void __put(File* file);
 int  __eof(File* file);
diff --git a/runtime/seek.c b/runtime/seek.c
index 6f8cfda..7f015ed 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -10,7 +10,7 @@
 
 void __seekwrite(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
     {
 	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
 	return;
@@ -20,7 +20,7 @@ void __seekwrite(File* f, uint64_t n)
 
 void __seekread(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
     {
 	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
 	return;
@@ -30,7 +30,7 @@ void __seekread(File* f, uint64_t n)
 
 void __seekupdate(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
     {
 	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
 	return;
@@ -41,7 +41,7 @@ void __seekupdate(File* f, uint64_t n)
 /* Note this is not thread-safe, but we don't have threads in Lacsap at present! */
 bool __empty(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
     {
 	FILE* file = files[f->handle].file;
 	long  current = ftell(file);
@@ -56,7 +56,7 @@ bool __empty(File* f)
 
 long __position(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
     {
 	long current = ftell(files[f->handle].file);
 	return current / f->recordSize;
@@ -67,7 +67,7 @@ long __position(File* f)
 
 long __lastposition(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
     {
 	FILE* file = files[f->handle].file;
 	long  current = ftell(file);
diff --git a/runtime/writebin.c b/runtime/writebin.c
index 5bfce92..e5c8e5a 100644
--- a/runtime/writebin.c
+++ b/runtime/writebin.c
@@ -3,16 +3,7 @@
 
 void __write_bin(File* file, void* val)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    if (!f)
-    {
-	fprintf(stderr, "Invalid file used for write binary file\n");
-	return;
-    }
+    getEntry(file, FileWrite, "write");
     memcpy(file->buffer, val, file->recordSize);
     __put(file);
 }
-- 
2.43.0


From 576ea8968599d1c8d9c19c34e2ffec0346a7b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 03/35] fix: file variables on the stack and the heap start out
 as not open

A local file variable, or one inside a variable made by new, contained
whatever was in memory before, so that opening it used a random file, or
crashed.
---
 builtin.cpp |  6 ++++++
 expr.cpp    |  5 +++++
 types.cpp   | 30 ++++++++++++++++++++++++++++++
 types.h     |  1 +
 4 files changed, 42 insertions(+)

diff --git a/builtin.cpp b/builtin.cpp
index 8ccfdb7..95b6c53 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -892,6 +892,12 @@ namespace Builtin
 	retVal = builder.CreateBitCast(retVal, pd->LlvmType(), "cast");
 	llvm::Value* pA = var->Address();
 
+	if (Types::ContainsFile(elemTy))
+	{
+	    // The runtime must be able to see that these files were never opened.
+	    builder.CreateMemSet(retVal, builder.getInt8(0), size, llvm::MaybeAlign());
+	}
+
 	// TODO: We need to recursively process the type here, and construct vtables for all
 	// of the elements that are classes (that have VTables).
 	if (auto cd = llvm::dyn_cast<Types::ClassDecl>(elemTy))
diff --git a/expr.cpp b/expr.cpp
index 381318c..3197384 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3300,6 +3300,11 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
 llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 {
     llvm::Value* v = CreateAlloca(func->Proto()->LlvmFunction(), var);
+    if (Types::ContainsFile(var.Type()))
+    {
+	// The runtime must be able to see that these files were never opened.
+	builder.CreateMemSet(v, builder.getInt8(0), var.Type()->Size(), llvm::MaybeAlign());
+    }
     auto         cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
     if (cd && cd->VTableType(Types::Opaque))
     {
diff --git a/types.cpp b/types.cpp
index 7d3c4c7..29ac912 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1470,6 +1470,36 @@ namespace Types
 	}
     }
 
+    // True for files, and for arrays, records and objects with a file somewhere inside.
+    bool ContainsFile(const TypeDecl* t)
+    {
+	if (llvm::isa<FileDecl>(t))
+	{
+	    return true;
+	}
+	if (auto a = llvm::dyn_cast<ArrayDecl>(t))
+	{
+	    return ContainsFile(a->SubType());
+	}
+	if (auto fc = llvm::dyn_cast<FieldCollection>(t))
+	{
+	    auto cd = llvm::dyn_cast<ClassDecl>(t);
+	    int  vtableoffset = cd && cd->VTableType(Opaque) ? 1 : 0;
+	    for (int i = 0; i < fc->FieldCount(); i++)
+	    {
+		if (ContainsFile(fc->GetElement(i + vtableoffset)->SubType()))
+		{
+		    return true;
+		}
+	    }
+	}
+	if (auto rd = llvm::dyn_cast<RecordDecl>(t))
+	{
+	    return rd->Variant() && ContainsFile(rd->Variant());
+	}
+	return false;
+    }
+
     bool IsCharArray(const TypeDecl* t)
     {
 	if (auto at = llvm::dyn_cast<ArrayDecl>(t))
diff --git a/types.h b/types.h
index 5876fc4..e1437c7 100644
--- a/types.h
+++ b/types.h
@@ -42,6 +42,7 @@ namespace Types
 
     bool IsNumeric(const TypeDecl* t);
     bool IsCharArray(const TypeDecl* t);
+    bool ContainsFile(const TypeDecl* t);
     bool IsStringLike(const TypeDecl* t);
     bool IsIntegral(const TypeDecl* t);
     bool IsUnsigned(const TypeDecl* t);
-- 
2.43.0


From ddd288236695cafdcb6c8256209eeabca9f07b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 04/35] fix: assign takes the file name from any string

A string variable or expression as the name was passed by value to a function
that expects the address of characters, so that the program crashed.
---
 builtin.cpp      |  4 ++--
 runtime/assign.c | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 95b6c53..96e2b56 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1237,11 +1237,11 @@ namespace Builtin
 	auto         fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* faddr = fvar->Address();
 
-	llvm::Value*             filename = args[1]->CodeGen();
+	llvm::Value*             filename = MakeStringFromExpr(args[1], Types::Get<Types::StringDecl>(255));
 	llvm::Type*              ty = filename->getType();
 	std::vector<llvm::Type*> argTypes = { faddr->getType(), ty };
 
-	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__assign");
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__assign_str");
 
 	return builder.CreateCall(f, { faddr, filename });
     }
diff --git a/runtime/assign.c b/runtime/assign.c
index b605089..5570d2f 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -64,6 +64,18 @@ void __assign(File* f, char* name)
     strcpy(files[i].name, name);
 }
 
+/*******************************************
+ * File assign, from a Pascal string
+ *******************************************
+ */
+void __assign_str(File* f, String* name)
+{
+    char buffer[MaxStringLen + 1];
+    memcpy(buffer, name->str, name->len);
+    buffer[name->len] = 0;
+    __assign(f, buffer);
+}
+
 /*******************************************
  * File assign for unnamed file
  *******************************************
-- 
2.43.0


From 00fbc03e92e4cf338141abcbbd2195d5678a88bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 05/35] fix: files of local and disposed variables end with
 them

Every local file variable took one more entry of the file table in each
activation, every assign took another one for the same variable, and every
open lost the previous buffer: such programs soon ran out of files.
---
 builtin.cpp       |  8 +++++++-
 expr.cpp          | 20 ++++++++++++++++++++
 expr.h            |  1 +
 runtime/assign.c  | 43 +++++++++++++++++++++++++++++++++++++++----
 runtime/runtime.h |  2 ++
 5 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 96e2b56..e162f58 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -930,7 +930,13 @@ namespace Builtin
 	llvm::Type*          ty = args[0]->Type()->LlvmType();
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty }, "__dispose");
 
-	return builder.CreateCall(f, { args[0]->CodeGen() });
+	llvm::Value* ptr = args[0]->CodeGen();
+	auto         pd = llvm::dyn_cast<Types::PointerDecl>(args[0]->Type());
+	if (pd && Types::ContainsFile(pd->SubType()))
+	{
+	    ReleaseFiles(ptr, pd->SubType());
+	}
+	return builder.CreateCall(f, { ptr });
     }
 
     ErrorType FunctionHalt::Semantics()
diff --git a/expr.cpp b/expr.cpp
index 3197384..254a6b9 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -150,6 +150,16 @@ llvm::FunctionCallee GetFunction(llvm::Type* resTy, const std::vector<llvm::Type
     return theModule->getOrInsertFunction(name, ft);
 }
 
+// Tell the runtime that a variable ends that may contain open files.
+void ReleaseFiles(llvm::Value* v, const Types::TypeDecl* ty)
+{
+    llvm::Type*          voidPtrTy = Types::GetVoidPtrType();
+    llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+                                         { voidPtrTy, Types::Get<Types::IntegerDecl>()->LlvmType() },
+                                         "__release_files");
+    builder.CreateCall(f, { v, MakeIntegerConstant(ty->Size()) });
+}
+
 static llvm::FunctionCallee GetFunction(Types::TypeDecl* res, const std::vector<llvm::Type*>& args,
                                         llvm::Value* callee)
 {
@@ -2167,6 +2177,16 @@ llvm::Function* FunctionAST::CodeGen(const std::string& namePrefix)
 	DebugInfo& di = GetDebugInfo();
 	di.EmitLocation(endLoc);
     }
+    for (auto d : varDecls)
+    {
+	for (auto var : d->Vars())
+	{
+	    if (Types::ContainsFile(var.Type()))
+	    {
+		ReleaseFiles(variables.Find(var.Name()), var.Type());
+	    }
+	}
+    }
     if (llvm::isa<Types::VoidDecl>(proto->Type()))
     {
 	builder.CreateRetVoid();
diff --git a/expr.h b/expr.h
index 7c8fccd..01fc16d 100644
--- a/expr.h
+++ b/expr.h
@@ -1128,6 +1128,7 @@ llvm::Constant*      MakeConstant(uint64_t val, Types::TypeDecl* ty);
 llvm::Value*         MakeAddressable(ExprAST* e);
 llvm::Value*         MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty);
 void                 BackPatch();
+void                 ReleaseFiles(llvm::Value* v, const Types::TypeDecl* ty);
 llvm::FunctionCallee GetFunction(llvm::Type* resTy, const std::vector<llvm::Type*>& args,
                                  const std::string& name);
 ExprAST*             Recast(ExprAST* a, const Types::TypeDecl* ty);
diff --git a/runtime/assign.c b/runtime/assign.c
index 5570d2f..63e90b9 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -36,7 +36,8 @@ void SetupFile(File* f, int recSize, int isText)
 {
     f->recordSize = (isText) ? 1024 : recSize;
     f->isText = isText;
-    f->buffer = malloc(f->recordSize);
+    free(files[f->handle].buffer);
+    f->buffer = files[f->handle].buffer = malloc(f->recordSize);
     files[f->handle].readPos = 0;
     files[f->handle].bufferSize = 0;
     files[f->handle].readAhead = 0;
@@ -48,9 +49,21 @@ void SetupFile(File* f, int recSize, int isText)
  */
 void __assign(File* f, char* name)
 {
-    int i;
-    for (i = 0; i < MaxPascalFiles && files[i].inUse; i++)
-	;
+    int i = f->handle;
+    // A file variable that has a file gets a new name for that.
+    if (i > 0 && i < MaxPascalFiles && files[i].inUse && files[i].fileData == f)
+    {
+	if (files[i].file)
+	{
+	    __close(f);
+	}
+	free(files[i].name);
+    }
+    else
+    {
+	for (i = 0; i < MaxPascalFiles && files[i].inUse; i++)
+	    ;
+    }
     if (i == MaxPascalFiles)
     {
 	fprintf(stderr, "No free files... Exiting\n");
@@ -64,6 +77,28 @@ void __assign(File* f, char* name)
     strcpy(files[i].name, name);
 }
 
+/*******************************************
+ * The variable at ptr ends, and with it all the files that it contains.
+ *******************************************
+ */
+void __release_files(char* ptr, int size)
+{
+    for (int i = 1; i < MaxPascalFiles; i++)
+    {
+	char* f = (char*)files[i].fileData;
+	if (files[i].inUse && f >= ptr && f < ptr + size)
+	{
+	    if (files[i].file)
+	    {
+		__close(files[i].fileData);
+	    }
+	    free(files[i].name);
+	    free(files[i].buffer);
+	    memset(&files[i], 0, sizeof(files[i]));
+	}
+    }
+}
+
 /*******************************************
  * File assign, from a Pascal string
  *******************************************
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 43dcf42..47f46f7 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -39,6 +39,7 @@ struct FileEntry
     File* fileData;
     FILE* file;
     char* name;
+    char* buffer;
     int   inUse;
     int   mode;
     int   readAhead;
@@ -131,6 +132,7 @@ static inline FILE* getFile(File* f)
     return getEntry(f, FileWrite, "write")->file;
 }
 
+void __close(File* f);
 int  __get(File* file);
 void __put(File* file);
 int  __eof(File* file);
-- 
2.43.0


From 663c65a52ee79a0d43bd73c72e5cfe5035874830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 06/35] fix: records that contain files can be compiled with
 debug information

---
 types.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index 29ac912..46b73c7 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1214,8 +1214,10 @@ namespace Types
 
     llvm::DIType* FileDecl::GetDIType(llvm::DIBuilder* builder) const
     {
-	// TODO: Fill in.
-	return 0;
+	// TODO: Describe the fields.
+	return builder->createStructType(0, Type() == TK_Text ? "text" : "file", 0, 0, Size() * CHAR_BIT,
+	                                 AlignSize() * CHAR_BIT, llvm::DINode::FlagZero, 0,
+	                                 builder->getOrCreateArray({}));
     }
 
     void FileDecl::DoDump() const
-- 
2.43.0


From 8e3367b757c6c92ce9a8f60489dad26435681faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 07/35] fix: get, read, eof and f^ share one look-ahead on text
 files

get took its character past the block that read had fetched, f^ was not
there before the first read, reading a line end waited for the next line,
and the character 255 ended the file.
---
 expr.cpp         |  9 +++--
 runtime/fileio.c |  5 ++-
 runtime/getput.c | 22 ------------
 runtime/read.c   | 89 +++++++++++++++++++++++++++---------------------
 4 files changed, 58 insertions(+), 67 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 254a6b9..f4aad43 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -656,11 +656,10 @@ llvm::Value* FilePointerExprAST::Address()
     auto vptr = llvm::dyn_cast<VariableExprAST>(pointer);
     ICE_IF(!vptr, "Expected variable expression!");
     llvm::Value* v = vptr->Address();
-    llvm::Type*  fileTy = pointer->Type()->LlvmType();
-    llvm::Type*  ptrTy = llvm::PointerType::getUnqual(Type()->LlvmType());
-    v = builder.CreateGEP(fileTy, v, { MakeIntegerConstant(0), MakeIntegerConstant(Types::FileDecl::Buffer) },
-                          "bufptr");
-    return builder.CreateLoad(ptrTy, v, "buffer");
+    // The runtime may have to fetch the current component first.
+    llvm::FunctionCallee f = GetFunction(llvm::PointerType::getUnqual(Type()->LlvmType()), { v->getType() },
+                                         "__file_buffer");
+    return builder.CreateCall(f, { v }, "buffer");
 }
 
 void FilePointerExprAST::accept(ASTVisitor& v)
diff --git a/runtime/fileio.c b/runtime/fileio.c
index 6261137..4ded7d2 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -47,7 +47,10 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 void __reset(File* f, int recSize, int isText)
 {
     OpenFile(f, recSize, isText, "r");
-    __get(f);
+    if (!isText)
+    {
+	__get(f);
+    }
 }
 
 void __rewrite(File* f, int recSize, int isText)
diff --git a/runtime/getput.c b/runtime/getput.c
index f4d69ba..0942b1b 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -11,28 +11,6 @@ void __put(File* file)
     fwrite(file->buffer, file->recordSize, 1, f->file);
 }
 
-int __get(File* file)
-{
-    struct FileEntry* f = getEntry(file, FileRead, "read");
-    if (file->isText)
-    {
-	int ch = fgetc(f->file);
-	*file->buffer = ch;
-	f->readAhead = (ch != EOF);
-	return f->readAhead;
-    }
-    else
-    {
-	if (fread(file->buffer, file->recordSize, 1, f->file) > 0)
-	{
-	    f->readAhead = 1;
-	    return 1;
-	}
-	f->readAhead = 0;
-    }
-    return 0;
-}
-
 void __page(File* file)
 {
     struct FileEntry* f = getEntry(file, FileWrite, "write");
diff --git a/runtime/read.c b/runtime/read.c
index e2b7cfb..3671166 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -11,7 +11,7 @@ static int read_chunk_text(struct FileEntry* f)
     if (file->isText & 2)
     {
 	int ch = fgetc(f->file);
-	f->readAhead = f->bufferSize = (ch != EOF);
+	f->readAhead = (ch != EOF);
 	return ch;
     }
     else
@@ -19,7 +19,7 @@ static int read_chunk_text(struct FileEntry* f)
 	if (f->readPos != f->bufferSize)
 	{
 	    f->readAhead = 1;
-	    return f->fileData->buffer[f->readPos++];
+	    return (unsigned char)f->fileData->buffer[f->readPos++];
 	}
 
 	int n;
@@ -30,14 +30,14 @@ static int read_chunk_text(struct FileEntry* f)
 		f->bufferSize = n;
 		f->readAhead = 1;
 		f->readPos = 1;
-		return *file->buffer;
+		return (unsigned char)*file->buffer;
 	    }
 	}
     }
     return EOF;
 }
 
-/* Make a local function so it can inline */
+/* Fetch the next character into the buffer variable. */
 static int __get_text(File* file)
 {
     struct FileEntry* f = &files[file->handle];
@@ -51,6 +51,42 @@ static int __get_text(File* file)
     return 1;
 }
 
+/* Make the buffer variable hold the current component, return 0 at the end of the file.
+ *
+ * A character is fetched no sooner than something depends on it: a terminal would wait for it.
+ */
+static int fill_buffer(File* file)
+{
+    if (files[file->handle].readAhead)
+    {
+	return 1;
+    }
+    return (file->isText) ? __get_text(file) : 0;
+}
+
+int __get(File* file)
+{
+    struct FileEntry* f = getEntry(file, FileRead, "read");
+    if (file->isText)
+    {
+	fill_buffer(file);
+	f->readAhead = 0;
+	return 1;
+    }
+    f->readAhead = fread(file->buffer, file->recordSize, 1, f->file) > 0;
+    return f->readAhead;
+}
+
+/* The address of the buffer variable. */
+char* __file_buffer(File* file)
+{
+    if (getEntry(file, FileRead | FileWrite, "access")->mode == FileRead)
+    {
+	fill_buffer(file);
+    }
+    return file->buffer;
+}
+
 /*******************************************
  * File End of {line,file}
  *******************************************
@@ -62,27 +98,13 @@ int __eof(File* file)
     {
 	return 1;
     }
-    if (!files[file->handle].readAhead)
-    {
-	if (!__get_text(file))
-	{
-	    return 1;
-	}
-    }
-    return 0;
+    return !fill_buffer(file);
 }
 
 int __eoln(File* file)
 {
     getEntry(file, FileRead, "eoln");
-    if (!files[file->handle].readAhead)
-    {
-	if (!__get_text(file))
-	{
-	    return 1;
-	}
-    }
-    return *file->buffer == '\n';
+    return !fill_buffer(file) || *file->buffer == '\n';
 }
 
 struct interface
@@ -106,12 +128,12 @@ struct interface
 
 static int file_current(struct interface* intf)
 {
-    return *intf->file->buffer;
+    return fill_buffer(intf->file) ? (unsigned char)*intf->file->buffer : EOF;
 }
 
 static int file_get_text(struct interface* intf)
 {
-    return __get_text(intf->file);
+    return __get(intf->file);
 }
 
 static int file_eof(struct interface* intf)
@@ -126,10 +148,7 @@ static int file_eoln(struct interface* intf)
 
 static void file_preread(struct interface* intf)
 {
-    if (!files[intf->file->handle].readAhead)
-    {
-	__get_text(intf->file);
-    }
+    fill_buffer(intf->file);
 }
 
 static void initFile(File* file, struct interface* intf)
@@ -440,19 +459,11 @@ void __read_S_real(String* str, double* v)
 void __read_nl(File* file)
 {
     getEntry(file, FileRead, "read");
-    if (!files[file->handle].readAhead)
-    {
-	if (!__get_text(file))
-	{
-	    return;
-	}
-    }
-    while (*file->buffer != '\n')
+    while (!__eoln(file))
     {
-	if (!__get_text(file))
-	    break;
+	__get(file);
     }
-    files[file->handle].readAhead = 0;
+    __get(file);
 }
 
 static void readstr(struct interface* intf, String* v)
@@ -493,7 +504,7 @@ void __read_S_str(String* str, String* v)
 static void readchars(struct interface* intf, char* v)
 {
     intf->fnpreread(intf);
-    while (intf->fncurrent(intf) != '\n')
+    while (!intf->fneoln(intf))
     {
 	*v++ = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -539,7 +550,7 @@ static void readbool(struct interface* intf, int* b)
     for (;;)
     {
 	ch = intf->fncurrent(intf);
-	if (isspace(ch) || count >= sizeof(str) - 1)
+	if (intf->fneof(intf) || isspace(ch) || count >= sizeof(str) - 1)
 	{
 	    break;
 	}
-- 
2.43.0


From 11b3ee406fbfa0274dfaf25d9a982387484e401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 08/35] fix: put writes one character to a text file

---
 runtime/getput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/getput.c b/runtime/getput.c
index 0942b1b..066bd26 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -8,7 +8,7 @@
 void __put(File* file)
 {
     struct FileEntry* f = getEntry(file, FileWrite, "write");
-    fwrite(file->buffer, file->recordSize, 1, f->file);
+    fwrite(file->buffer, (file->isText) ? 1 : file->recordSize, 1, f->file);
 }
 
 void __page(File* file)
-- 
2.43.0


From 20f5a152ec862bcbea665f97a75bac6a5b958b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 09/35] fix: report output that could not be written

The results of fprintf, fwrite and fclose were never looked at, so that a
full disk went unnoticed. Now the next write, the close, or the end of the
program reports it.
---
 runtime/assign.c  |  1 +
 runtime/fileio.c  | 28 +++++++++++++++++++++++++++-
 runtime/getput.c  |  8 ++++----
 runtime/runtime.h |  8 +++++++-
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index 63e90b9..076c0cf 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -26,6 +26,7 @@ void InitFiles()
     files[input.handle].mode = FileRead;
     files[output.handle].file = stdout;
     files[output.handle].mode = FileWrite;
+    atexit(FlushFiles);
 }
 
 /*******************************************
diff --git a/runtime/fileio.c b/runtime/fileio.c
index 4ded7d2..e6f4128 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -1,6 +1,7 @@
 #include "runtime.h"
 #include <stdlib.h>
 #include <string.h>
+#include <unistd.h>
 
 /*******************************************
  * File Basics, low level I/O.
@@ -16,9 +17,34 @@ void FileError(const char* op)
 void __close(File* f)
 {
     struct FileEntry* fe = getEntry(f, FileRead | FileWrite, "close");
-    fclose(fe->file);
+    // Some of what was written may only now reach the file.
+    bool  failed = (fe->mode & FileWrite) && ferror(fe->file);
+    FILE* file = fe->file;
     fe->file = NULL;
     fe->mode = FileClosed;
+    if (fclose(file) || failed)
+    {
+	FileError("close");
+    }
+}
+
+/* At the end of the program, see to it that everything that was written is stored. */
+void FlushFiles()
+{
+    bool failed = false;
+    for (int i = 1; i < MaxPascalFiles; i++)
+    {
+	FILE* file = files[i].file;
+	if (file && (files[i].mode & FileWrite) && (ferror(file) || fflush(file)))
+	{
+	    failed = true;
+	}
+    }
+    if (failed)
+    {
+	fprintf(stderr, "Attempt to write file failed\n");
+	_exit(1);
+    }
 }
 
 static void OpenFile(File* f, int recSize, int isText, const char* mode)
diff --git a/runtime/getput.c b/runtime/getput.c
index 066bd26..b872446 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -7,12 +7,12 @@
 
 void __put(File* file)
 {
-    struct FileEntry* f = getEntry(file, FileWrite, "write");
-    fwrite(file->buffer, (file->isText) ? 1 : file->recordSize, 1, f->file);
+    FILE* f = getFile(file);
+    fwrite(file->buffer, (file->isText) ? 1 : file->recordSize, 1, f);
 }
 
 void __page(File* file)
 {
-    struct FileEntry* f = getEntry(file, FileWrite, "write");
-    fputc('\014', f->file);
+    FILE* f = getFile(file);
+    fputc('\014', f);
 }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 47f46f7..26894dd 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -104,6 +104,7 @@ extern File output;
  *******************************************
  */
 void InitFiles();
+void FlushFiles();
 void SetupFile(File* f, int recSize, int isText);
 void FileError(const char* op);
 
@@ -129,7 +130,12 @@ static inline struct FileEntry* getEntry(File* f, int modes, const char* op)
 /* The stream of a file that is open for writing. */
 static inline FILE* getFile(File* f)
 {
-    return getEntry(f, FileWrite, "write")->file;
+    FILE* file = getEntry(f, FileWrite, "write")->file;
+    if (ferror(file))
+    {
+	FileError("write");
+    }
+    return file;
 }
 
 void __close(File* f);
-- 
2.43.0


From 1ef1e81411f821d7f77033a4f783cbe789b96f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 10/35] fix: a read error is not the end of the file

---
 runtime/read.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/runtime/read.c b/runtime/read.c
index 3671166..abb022e 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -5,6 +5,15 @@
 #include <stdlib.h>
 #include <string.h>
 
+/* No more input is not always the end of the file. */
+static void check_error(FILE* file)
+{
+    if (ferror(file))
+    {
+	FileError("read");
+    }
+}
+
 static int read_chunk_text(struct FileEntry* f)
 {
     File* file = f->fileData;
@@ -12,6 +21,7 @@ static int read_chunk_text(struct FileEntry* f)
     {
 	int ch = fgetc(f->file);
 	f->readAhead = (ch != EOF);
+	check_error(f->file);
 	return ch;
     }
     else
@@ -22,6 +32,8 @@ static int read_chunk_text(struct FileEntry* f)
 	    return (unsigned char)f->fileData->buffer[f->readPos++];
 	}
 
+	// An error after some more input.
+	check_error(f->file);
 	int n;
 	if ((n = fread(file->buffer, 1, file->recordSize, f->file)))
 	{
@@ -33,6 +45,7 @@ static int read_chunk_text(struct FileEntry* f)
 		return (unsigned char)*file->buffer;
 	    }
 	}
+	check_error(f->file);
     }
     return EOF;
 }
@@ -74,6 +87,10 @@ int __get(File* file)
 	return 1;
     }
     f->readAhead = fread(file->buffer, file->recordSize, 1, f->file) > 0;
+    if (!f->readAhead)
+    {
+	check_error(f->file);
+    }
     return f->readAhead;
 }
 
-- 
2.43.0


From e99b68e24daa7006b6c67267e56fc00251fe607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 11/35] fix: direct access positions the file where it is told

The arguments of fseek were swapped, the component in the buffer variable
was not taken into account, and the files were never opened for what
seekread, seekwrite and seekupdate are to allow.
---
 runtime/fileio.c  |   1 +
 runtime/getput.c  |  13 ++++++
 runtime/read.c    |   4 +-
 runtime/runtime.h |   5 +++
 runtime/seek.c    | 105 ++++++++++++++++++++++++++--------------------
 5 files changed, 80 insertions(+), 48 deletions(-)

diff --git a/runtime/fileio.c b/runtime/fileio.c
index e6f4128..7dff620 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -64,6 +64,7 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 	if (files[f->handle].file)
 	{
 	    files[f->handle].mode = (*mode == 'r') ? FileRead : FileWrite;
+	    files[f->handle].access = (*mode == 'r') ? FileRead : FileClosed;
 	    return;
 	}
     }
diff --git a/runtime/getput.c b/runtime/getput.c
index b872446..895a048 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -8,7 +8,20 @@
 void __put(File* file)
 {
     FILE* f = getFile(file);
+    int   update = files[file->handle].mode == FileUpdate;
+    if (update && fseek(f, __position(file) * file->recordSize, SEEK_SET))
+    {
+	FileError("write");
+    }
     fwrite(file->buffer, (file->isText) ? 1 : file->recordSize, 1, f);
+    if (update)
+    {
+	if (fseek(f, 0, SEEK_CUR))
+	{
+	    FileError("write");
+	}
+	__get(file);
+    }
 }
 
 void __page(File* file)
diff --git a/runtime/read.c b/runtime/read.c
index abb022e..271b1bd 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -110,10 +110,10 @@ char* __file_buffer(File* file)
  */
 int __eof(File* file)
 {
-    // A file that is being written is always at its end.
+    // A file that is being written is always at its end, unless it was moved from there.
     if (getEntry(file, FileRead | FileWrite, "eof")->mode == FileWrite)
     {
-	return 1;
+	return !files[file->handle].access || __position(file) > __lastposition(file);
     }
     return !fill_buffer(file);
 }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 26894dd..b5cf20e 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <stdbool.h>
+#include <stdint.h>
 #include <stdio.h>
 
 /*******************************************
@@ -32,6 +33,7 @@ enum FileMode
     FileClosed = 0,
     FileRead = 1,
     FileWrite = 2,
+    FileUpdate = FileRead | FileWrite,
 };
 
 struct FileEntry
@@ -42,6 +44,7 @@ struct FileEntry
     char* buffer;
     int   inUse;
     int   mode;
+    int   access; // What direct access can do without opening it again.
     int   readAhead;
     int   readPos;
     int   bufferSize;
@@ -139,6 +142,8 @@ static inline FILE* getFile(File* f)
 }
 
 void __close(File* f);
+int64_t __position(File* f);
+int64_t __lastposition(File* f);
 int  __get(File* file);
 void __put(File* file);
 int  __eof(File* file);
diff --git a/runtime/seek.c b/runtime/seek.c
index 7f015ed..5288366 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -8,74 +8,87 @@
  *******************************************
  */
 
-void __seekwrite(File* f, uint64_t n)
+/* The number of bytes in a file, its position stays what it is. */
+static int64_t FileLength(FILE* file, const char* op)
 {
-    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
+    long current = ftell(file);
+    if (current >= 0 && !fseek(file, 0, SEEK_END))
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
+	long len = ftell(file);
+	if (len >= 0 && !fseek(file, current, SEEK_SET))
+	{
+	    return len;
+	}
     }
-    FileError("seekwrite");
+    FileError(op);
+    return 0;
 }
 
-void __seekread(File* f, uint64_t n)
+static void Seek(File* f, int64_t n, int mode, const char* op)
 {
-    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
+    struct FileEntry* fe = getEntry(f, FileRead | FileWrite, op);
+    if (f->isText)
+    {
+	FileError(op);
+    }
+    if ((fe->access & mode) != mode)
+    {
+	// Not what reset, rewrite or append opened it for.
+	__close(f);
+	fe->file = fopen(fe->name, (mode == FileRead) ? "r" : "r+");
+	if (!fe->file)
+	{
+	    FileError(op);
+	}
+	fe->access = (mode == FileRead) ? FileRead : FileUpdate;
+    }
+    if (n < 0 || n > FileLength(fe->file, op) / f->recordSize || fseek(fe->file, n * f->recordSize, SEEK_SET))
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
+	FileError(op);
+    }
+    fe->mode = mode;
+    fe->readAhead = 0;
+    if (mode & FileRead)
+    {
+	__get(f);
     }
-    FileError("seekread");
 }
 
-void __seekupdate(File* f, uint64_t n)
+void __seekwrite(File* f, int64_t n)
 {
-    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
-    }
-    FileError("seekupdate");
+    Seek(f, n, FileWrite, "seekwrite");
+}
+
+void __seekread(File* f, int64_t n)
+{
+    Seek(f, n, FileRead, "seekread");
+}
+
+void __seekupdate(File* f, int64_t n)
+{
+    Seek(f, n, FileUpdate, "seekupdate");
 }
 
 /* Note this is not thread-safe, but we don't have threads in Lacsap at present! */
 bool __empty(File* f)
 {
-    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	FILE* file = files[f->handle].file;
-	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
-	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
-	return (len == 0);
-    }
-    FileError("empty");
-    return false;
+    return FileLength(getEntry(f, FileRead | FileWrite, "empty")->file, "empty") == 0;
 }
 
-long __position(File* f)
+int64_t __position(File* f)
 {
-    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
+    struct FileEntry* fe = getEntry(f, FileRead | FileWrite, "position");
+    long              current = ftell(fe->file);
+    if (current < 0)
     {
-	long current = ftell(files[f->handle].file);
-	return current / f->recordSize;
+	FileError("position");
     }
-    FileError("position");
-    return 0;
+    // A component that is in the buffer variable was not read yet.
+    return current / f->recordSize - fe->readAhead;
 }
 
-long __lastposition(File* f)
+int64_t __lastposition(File* f)
 {
-    if (f->handle > 0 && files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	FILE* file = files[f->handle].file;
-	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
-	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
-	return len / f->recordSize;
-    }
-    FileError("lastposition");
-    return 0;
+    struct FileEntry* fe = getEntry(f, FileRead | FileWrite, "lastposition");
+    return FileLength(fe->file, "lastposition") / f->recordSize - 1;
 }
-- 
2.43.0


From 5bc5e632408b9ff204bd65a8245e10d8a9b04eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 12/35] fix: bind and unbind change the name of the file

Their range check could never hold, and bind passed the binding in a way
the runtime did not expect.
---
 builtin.cpp       |  4 ++--
 runtime/assign.c  |  2 ++
 runtime/bind.c    | 31 ++++++++++++++++++++-----------
 runtime/fileio.c  |  2 +-
 runtime/runtime.h |  1 +
 5 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index e162f58..b1902fa 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1708,8 +1708,8 @@ namespace Builtin
 	auto fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	ICE_IF(!fvar, "Should be a variable here");
 	llvm::Value*             faddr = fvar->Address();
-	llvm::Value*             binding = args[1]->CodeGen();
-	std::vector<llvm::Type*> argTypes = { faddr->getType(), Types::GetBindingType()->LlvmType() };
+	llvm::Value*             binding = MakeAddressable(args[1]);
+	std::vector<llvm::Type*> argTypes = { faddr->getType(), binding->getType() };
 	llvm::FunctionCallee     f = GetFunction(Type()->LlvmType(), argTypes, "__" + name);
 
 	return builder.CreateCall(f, { faddr, binding });
diff --git a/runtime/assign.c b/runtime/assign.c
index 076c0cf..2d0402f 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -75,6 +75,7 @@ void __assign(File* f, char* name)
     files[i].name = malloc(strlen(name) + 1);
     files[i].fileData = f;
     files[i].readAhead = 0;
+    files[i].unnamed = false;
     strcpy(files[i].name, name);
 }
 
@@ -125,4 +126,5 @@ void __assign_unnamed(File* f)
     n++;
     snprintf(name, sizeof(name), "lacsap_tmp_file_%ld_%06u", (long)getpid(), n);
     __assign(f, name);
+    files[f->handle].unnamed = true;
 }
diff --git a/runtime/bind.c b/runtime/bind.c
index 8d8d069..a07a61c 100644
--- a/runtime/bind.c
+++ b/runtime/bind.c
@@ -10,10 +10,10 @@ struct BindingType __binding(File* f)
     if (f->handle > 0 && f->handle < MaxPascalFiles)
     {
 	struct FileEntry* fe = &files[f->handle];
-	if (fe->name)
+	if (fe->name && !fe->unnamed)
 	{
 	    size_t len = strlen(fe->name);
-	    assert(len < 255);
+	    assert(len <= MaxStringLen);
 	    r.Name.len = len;
 	    memcpy(r.Name.str, fe->name, len);
 	    r.Bound = true;
@@ -22,23 +22,32 @@ struct BindingType __binding(File* f)
     return r;
 }
 
+static void SetName(File* f, char* name)
+{
+    struct FileEntry* fe = &files[f->handle];
+    if (fe->file)
+    {
+	__close(f);
+    }
+    free(fe->name);
+    fe->name = name;
+    fe->unnamed = false;
+}
+
 void __bind(File* f, struct BindingType* b)
 {
-    if (f->handle > 0 && f->handle > MaxPascalFiles)
+    if (f->handle > 0 && f->handle < MaxPascalFiles)
     {
-	if (files[f->handle].name)
-	    free(files[f->handle].name);
-	files[f->handle].name = calloc(1, b->Name.len + 1);
-	memcpy(files[f->handle].name, b->Name.str, b->Name.len);
+	char* name = calloc(1, b->Name.len + 1);
+	memcpy(name, b->Name.str, b->Name.len);
+	SetName(f, name);
     }
 }
 
 void __unbind(File* f)
 {
-    if (f->handle > 0 && f->handle > MaxPascalFiles)
+    if (f->handle > 0 && f->handle < MaxPascalFiles)
     {
-	char* ptr = files[f->handle].name;
-	files[f->handle].name = NULL;
-	free(ptr);
+	SetName(f, NULL);
     }
 }
diff --git a/runtime/fileio.c b/runtime/fileio.c
index 7dff620..221fda8 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -49,7 +49,7 @@ void FlushFiles()
 
 static void OpenFile(File* f, int recSize, int isText, const char* mode)
 {
-    if (!f->handle)
+    if (!f->handle || !files[f->handle].name)
     {
 	__assign_unnamed(f);
     }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index b5cf20e..2c9741a 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -42,6 +42,7 @@ struct FileEntry
     FILE* file;
     char* name;
     char* buffer;
+    bool  unnamed; // The name is ours.
     int   inUse;
     int   mode;
     int   access; // What direct access can do without opening it again.
-- 
2.43.0


From 399ceabe73da349b3809bad37672694170ff0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 13/35] fix: running out of memory ends the program with a
 message

---
 runtime/alloc.c   | 13 ++++++++++++-
 runtime/assign.c  |  4 ++--
 runtime/bind.c    |  3 ++-
 runtime/read.c    |  4 ++--
 runtime/runtime.h |  2 ++
 5 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/runtime/alloc.c b/runtime/alloc.c
index 591f52a..3997aa7 100644
--- a/runtime/alloc.c
+++ b/runtime/alloc.c
@@ -5,9 +5,20 @@
  * Memory allocation functions
  *******************************************
  */
+void* Allocate(size_t size)
+{
+    void* ptr = malloc(size);
+    if (!ptr && size)
+    {
+	fprintf(stderr, "Out of memory\n");
+	exit(1);
+    }
+    return ptr;
+}
+
 void* __new(int size)
 {
-    return malloc(size);
+    return Allocate(size);
 }
 
 void __dispose(void* ptr)
diff --git a/runtime/assign.c b/runtime/assign.c
index 2d0402f..b8d4382 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -38,7 +38,7 @@ void SetupFile(File* f, int recSize, int isText)
     f->recordSize = (isText) ? 1024 : recSize;
     f->isText = isText;
     free(files[f->handle].buffer);
-    f->buffer = files[f->handle].buffer = malloc(f->recordSize);
+    f->buffer = files[f->handle].buffer = Allocate(f->recordSize);
     files[f->handle].readPos = 0;
     files[f->handle].bufferSize = 0;
     files[f->handle].readAhead = 0;
@@ -72,7 +72,7 @@ void __assign(File* f, char* name)
     }
     f->handle = i;
     files[i].inUse = 1;
-    files[i].name = malloc(strlen(name) + 1);
+    files[i].name = Allocate(strlen(name) + 1);
     files[i].fileData = f;
     files[i].readAhead = 0;
     files[i].unnamed = false;
diff --git a/runtime/bind.c b/runtime/bind.c
index a07a61c..ffbf8f4 100644
--- a/runtime/bind.c
+++ b/runtime/bind.c
@@ -38,7 +38,8 @@ void __bind(File* f, struct BindingType* b)
 {
     if (f->handle > 0 && f->handle < MaxPascalFiles)
     {
-	char* name = calloc(1, b->Name.len + 1);
+	char* name = Allocate(b->Name.len + 1);
+	name[b->Name.len] = 0;
 	memcpy(name, b->Name.str, b->Name.len);
 	SetName(f, name);
     }
diff --git a/runtime/read.c b/runtime/read.c
index 271b1bd..8a28e41 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -227,10 +227,10 @@ static struct interfaceNode* intfList;
 
 struct interface* __read_S_init(String* str)
 {
-    struct interface* intf = malloc(sizeof(struct interface));
+    struct interface* intf = Allocate(sizeof(struct interface));
     initStr(str, intf);
     // TODO: Threading will need a lock here.
-    struct interfaceNode* intfNode = malloc(sizeof(struct interfaceNode));
+    struct interfaceNode* intfNode = Allocate(sizeof(struct interfaceNode));
     intfNode->intf = intf;
     intfNode->next = intfList;
     intfList = intfNode;
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 2c9741a..913dbe8 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -107,6 +107,8 @@ extern File output;
  * Function declarations
  *******************************************
  */
+void* Allocate(size_t size);
+
 void InitFiles();
 void FlushFiles();
 void SetupFile(File* f, int recSize, int isText);
-- 
2.43.0


From cd7f1b6565fded2789ca3cdd831d156d1505701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 14/35] fix: write and writestr give all characters of a
 string, and the same ones

NUL characters cut strings short, writestr wrote reals in another format
than write, and past the end of the string.
---
 runtime/write.c | 105 ++++++++++++++++++------------------------------
 1 file changed, 40 insertions(+), 65 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index abedf88..93f45d9 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -15,8 +15,13 @@ void __write_S_init(String* str)
     str->len = 0;
 }
 
+/* The buffer holds as much of the n characters as fits in a string. */
 static void SetStrResult(String* str, int n, const char* buffer)
 {
+    if (n > MaxStringLen - str->len)
+    {
+	n = MaxStringLen - str->len;
+    }
     memcpy(&str->str[str->len], buffer, n);
     str->len += n;
 }
@@ -58,10 +63,7 @@ void __write_S_real(String* str, double v, int width, int precision)
 	{
 	    width = 13;
 	}
-	if (precision == 0)
-	{
-	    precision = (width > 8) ? width - 7 : 1;
-	}
+	precision = (width > 8) ? width - 7 : 1;
     }
 
     int n = snprintf(buffer, sizeof(buffer), (scientific) ? "% *.*E" : "%*.*f", width, precision, v);
@@ -105,102 +107,75 @@ void __write_char(File* file, char v, int width)
     fprintf(f, "%*c", width, v);
 }
 
-void __write_S_bool(String* str, int v, int width)
-{
-    char        buffer[MaxStringLen + 1];
-    const char* vstr = (v & 1) ? "TRUE" : "FALSE";
-    if (width <= 0)
-    {
-	width = (v) ? 4 : 5;
-    }
-    int n = snprintf(buffer, sizeof(buffer), "%*s", width, vstr);
-    SetStrResult(str, n, buffer);
-}
-
-void __write_bool(File* file, int v, int width)
+// An array of characters ends at a NUL character.
+static int CharsLen(const char* v, int len)
 {
-    FILE*       f = getFile(file);
-    const char* vstr = (v & 1) ? "TRUE" : "FALSE";
-    if (width <= 0)
-    {
-	width = (v) ? 4 : 5;
-    }
-    fprintf(f, "%*s", width, vstr);
+    const char* end = memchr(v, 0, len);
+    return (end) ? end - v : len;
 }
 
 void __write_S_chars(String* str, const char* v, int len, int width)
 {
+    len = CharsLen(v, len);
     char buffer[MaxStringLen + 1];
-    int  n;
     if (width > 0)
     {
 	if (len > width)
 	{
 	    len = width;
 	}
-	n = snprintf(buffer, sizeof(buffer), "%*.*s", width, len, v);
-    }
-    else
-    {
-	n = snprintf(buffer, sizeof(buffer), "%.*s", len, v);
+	int n = snprintf(buffer, sizeof(buffer), "%*s", width - len, "");
+	SetStrResult(str, n, buffer);
     }
-    SetStrResult(str, n, buffer);
+    SetStrResult(str, len, v);
 }
 
 void __write_chars(File* file, const char* v, int len, int width)
 {
     FILE* f = getFile(file);
+    len = CharsLen(v, len);
     if (width > 0)
     {
 	if (len > width)
 	{
 	    len = width;
 	}
-	fprintf(f, "%*.*s", width, len, v);
-    }
-    else
-    {
-	fprintf(f, "%.*s", len, v);
+	fprintf(f, "%*s", width - len, "");
     }
+    fwrite(v, 1, len, f);
+}
+
+void __write_S_bool(String* str, int v, int width)
+{
+    const char* vstr = (v & 1) ? "TRUE" : "FALSE";
+    int         len = strlen(vstr);
+    __write_S_chars(str, vstr, len, (width < len) ? len : width);
+}
+
+void __write_bool(File* file, int v, int width)
+{
+    const char* vstr = (v & 1) ? "TRUE" : "FALSE";
+    int         len = strlen(vstr);
+    __write_chars(file, vstr, len, (width < len) ? len : width);
 }
 
+// TODO: The width has no effect.
 void __write_S_str(String* str, const String* v, int width)
 {
-    char buffer[MaxStringLen + 1];
-    char s[MaxStringLen + 1];
-    int  n;
-    memcpy(s, v->str, v->len);
-    s[v->len] = 0;
-    if (width < v->len)
-    {
-	n = snprintf(buffer, sizeof(buffer), "%*s", width, s);
-    }
-    else
-    {
-	n = snprintf(buffer, sizeof(buffer), "%s", s);
-    }
-    SetStrResult(str, n, buffer);
+    (void)width;
+    SetStrResult(str, v->len, (const char*)v->str);
 }
 
 void __write_str(File* file, const String* v, int width)
 {
+    (void)width;
     FILE* f = getFile(file);
-    char  s[MaxStringLen + 1];
-    memcpy(s, v->str, v->len);
-    s[v->len] = 0;
-    if (width < v->len)
-    {
-	fprintf(f, "%*s", width, s);
-    }
-    else
-    {
-	fprintf(f, "%s", s);
-    }
+    fwrite(v->str, 1, v->len, f);
 }
 
 void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 {
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	static const char* msg = "Invalid Enum Value";
 	__write_S_chars(strout, msg, strlen(msg), width);
@@ -208,7 +183,7 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
     else
     {
 	int   offset = e2s->offset[en];
-	int   len = e2s->strings[offset];
+	int   len = (unsigned char)e2s->strings[offset];
 	char* str = &e2s->strings[offset + 1];
 	__write_S_chars(strout, str, len, width);
     }
@@ -217,14 +192,14 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 void __write_enum(File* file, int en, int width, struct EnumToString* e2s)
 {
     static const char* msg = "Invalid Enum Value";
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	__write_chars(file, msg, strlen(msg), width);
     }
     else
     {
 	int   offset = e2s->offset[en];
-	int   len = e2s->strings[offset];
+	int   len = (unsigned char)e2s->strings[offset];
 	char* str = &e2s->strings[offset + 1];
 	__write_chars(file, str, len, width);
     }
-- 
2.43.0


From fe25c74414227ea1f3d32faf628c570cc1b30bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 15/35] fix: writestr keeps within its string and may use that
 as an argument

---
 expr.cpp        | 13 ++++++++++++-
 runtime/write.c |  7 +++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index f4aad43..a7a9488 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2980,13 +2980,16 @@ llvm::Value* WriteAST::CodeGen()
     llvm::Type*  voidPtrTy = Types::GetVoidPtrType();
     bool         isText = kind == WriteKind::WriteStr || llvm::isa<Types::TextDecl>(dest->Type());
     llvm::Type*  dstTy = dst->getType();
+    llvm::Value* result = dst;
     if (kind == WriteKind::WriteStr)
     {
+	// The arguments may use the result string, and what they give may be longer than that.
+	dst = CreateTempAlloca(Types::Get<Types::StringDecl>(255));
 	llvm::FunctionCallee fc = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy },
 	                                      "__write_S_init");
 	v = builder.CreateCall(fc, { dst });
     }
-    if (kind != WriteKind::WriteLn && args.empty())
+    else if (kind != WriteKind::WriteLn && args.empty())
     {
 	return NoOpValue();
     }
@@ -3090,6 +3093,14 @@ llvm::Value* WriteAST::CodeGen()
 	                                      "__write_nl");
 	v = builder.CreateCall(fc, dst);
     }
+    if (kind == WriteKind::WriteStr)
+    {
+	llvm::Type*          intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	llvm::FunctionCallee fc = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+	                                      { dstTy, dstTy, intTy }, "__write_S_end");
+	auto                 sty = llvm::cast<Types::StringDecl>(dest->Type());
+	v = builder.CreateCall(fc, { result, dst, MakeIntegerConstant(sty->Capacity()) });
+    }
     return v;
 }
 
diff --git a/runtime/write.c b/runtime/write.c
index 93f45d9..08bd243 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -15,6 +15,13 @@ void __write_S_init(String* str)
     str->len = 0;
 }
 
+/* Give the target of writestr as much as it can hold. */
+void __write_S_end(String* result, const String* str, int capacity)
+{
+    result->len = (str->len < capacity) ? str->len : capacity;
+    memcpy(result->str, str->str, result->len);
+}
+
 /* The buffer holds as much of the n characters as fits in a string. */
 static void SetStrResult(String* str, int n, const char* buffer)
 {
-- 
2.43.0


From ebc802b49486d29e1e4947a97dd7920fec5aeb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 16/35] fix: enumerations can be written in the 32-bit model

---
 types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types.cpp b/types.cpp
index 46b73c7..0f7b2e3 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1570,7 +1570,9 @@ namespace Types
 		new FieldDecl("offset", new ArrayDecl(Get<IntegerDecl>(), r), false)
 	    };
 	    enum2strType = new RecordDecl(fields, nullptr);
-	    ICE_IF(sizeof(EnumToString) != enum2strType->Size(),
+	    // The size depends on that of a pointer, in the model that we compile for.
+	    ICE_IF(theModule->getDataLayout().getPointerSize() == sizeof(void*) &&
+	               sizeof(EnumToString) != enum2strType->Size(),
 	           "Runtime and EnumToString type should match in size");
 	}
 	return enum2strType;
-- 
2.43.0


From b6ad695f6195665745b6eeb1f34ab6c07c4e52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 17/35] fix: gettimestamp sets all fields of the time stamp

---
 runtime/gettimestamp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/gettimestamp.c b/runtime/gettimestamp.c
index e47b15a..df547f0 100644
--- a/runtime/gettimestamp.c
+++ b/runtime/gettimestamp.c
@@ -15,6 +15,7 @@ void __gettimestamp(struct TimeStamp* ts)
     ts->Hour = tt.tm_hour;
     ts->Minute = tt.tm_min;
     ts->Second = tt.tm_sec;
+    ts->MicroSecond = 0;
 }
 
 // Length: 8+nul = 9
-- 
2.43.0


From 96008c50e818564807aefb04aa47568444ae60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 18/35] fix: read stores no more than fits in the variable

---
 expr.cpp       | 12 ++++++++++++
 runtime/read.c | 45 ++++++++++++++++++---------------------------
 2 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index a7a9488..9a2e01a 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3167,10 +3167,12 @@ static llvm::FunctionCallee CreateReadFunc(Types::TypeDecl* ty, llvm::Type* fty,
     else if (llvm::isa<Types::StringDecl>(ty))
     {
 	suffix = "str";
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
     }
     else if (IsCharArray(ty))
     {
 	suffix = "chars";
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
     }
     else
     {
@@ -3230,6 +3232,16 @@ llvm::Value* ReadAST::CodeGen()
 	}
 
 	argsV.push_back(v);
+	// No more than fits in the variable must be read.
+	if (isText && llvm::isa<Types::StringDecl>(ty))
+	{
+	    argsV.push_back(MakeIntegerConstant(llvm::cast<Types::StringDecl>(ty)->Capacity()));
+	}
+	else if (isText && Types::IsCharArray(ty))
+	{
+	    auto slice = llvm::dyn_cast<ArraySliceAST>(arg);
+	    argsV.push_back(slice ? slice->Size() : MakeIntegerConstant(ty->Size()));
+	}
 
 	ICE_IF(!fn, "Failed to generate function");
 	v = builder.CreateCall(fn, argsV, "");
diff --git a/runtime/read.c b/runtime/read.c
index 8a28e41..fb4eab4 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -483,14 +483,14 @@ void __read_nl(File* file)
     __get(file);
 }
 
-static void readstr(struct interface* intf, String* v)
+static void readstr(struct interface* intf, String* v, size_t capacity)
 {
-    char   buffer[256];
+    char   buffer[MaxStringLen];
     size_t count = 0;
 
     intf->fnpreread(intf);
 
-    while (!intf->fneoln(intf) && count < sizeof(buffer))
+    while (count < capacity && count < sizeof(buffer) && !intf->fneoln(intf))
     {
 	buffer[count++] = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -502,26 +502,26 @@ static void readstr(struct interface* intf, String* v)
     memcpy(v->str, buffer, count);
 }
 
-void __read_str(File* file, String* v)
+void __read_str(File* file, String* v, int capacity)
 {
     struct interface intf;
     initFile(file, &intf);
 
-    readstr(&intf, v);
+    readstr(&intf, v, capacity);
 }
 
-void __read_S_str(String* str, String* v)
+void __read_S_str(String* str, String* v, int capacity)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readstr(intf, v);
+    readstr(intf, v, capacity);
 }
 
-static void readchars(struct interface* intf, char* v)
+static void readchars(struct interface* intf, char* v, int size)
 {
     intf->fnpreread(intf);
-    while (!intf->fneoln(intf))
+    while (size-- > 0 && !intf->fneoln(intf))
     {
 	*v++ = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -531,20 +531,20 @@ static void readchars(struct interface* intf, char* v)
     }
 }
 
-void __read_chars(File* file, char* v)
+void __read_chars(File* file, char* v, int size)
 {
     struct interface intf;
     initFile(file, &intf);
 
-    readchars(&intf, v);
+    readchars(&intf, v, size);
 }
 
-void __read_S_chars(String* str, char* v)
+void __read_S_chars(String* str, char* v, int size)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readchars(intf, v);
+    readchars(intf, v, size);
 }
 
 static void upstr(char* s)
@@ -557,7 +557,7 @@ static void upstr(char* s)
     }
 }
 
-static void readbool(struct interface* intf, int* b)
+static void readbool(struct interface* intf, bool* b)
 {
     intf->fnpreread(intf);
     skip_spaces(intf);
@@ -576,20 +576,11 @@ static void readbool(struct interface* intf, int* b)
     }
     str[count] = 0;
     upstr(str);
-    if (strcmp("TRUE", str) == 0)
-    {
-	*b = 1;
-	return;
-    }
-    else if (strcmp("FALSE", str) == 0)
-    {
-	*b = 0;
-	return;
-    }
-    *b = -1;
+    // Anything else than true or false reads as false.
+    *b = (strcmp("TRUE", str) == 0);
 }
 
-void __read_bool(File* file, int* b)
+void __read_bool(File* file, bool* b)
 {
     struct interface intf;
     initFile(file, &intf);
@@ -597,7 +588,7 @@ void __read_bool(File* file, int* b)
     readbool(&intf, b);
 }
 
-void __read_S_bool(String* str, int* b)
+void __read_S_bool(String* str, bool* b)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
-- 
2.43.0


From 650e2f218162a87dca7650ca8bbd119f725dc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 19/35] fix: readstr ends with its string

Past the end it read what was in memory behind the string, or from before.
---
 expr.cpp       | 8 ++++----
 runtime/read.c | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 9a2e01a..a484569 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3200,15 +3200,15 @@ llvm::Value* ReadAST::CodeGen()
     llvm::Value* descr = 0;
     bool         isText = kind == ReadKind::ReadStr || llvm::isa<Types::TextDecl>(src->Type());
     llvm::Type*  srcTy = sc->getType();
+    if (args.empty() && kind != ReadKind::ReadLn)
+    {
+	return NoOpValue();
+    }
     if (kind == ReadKind::ReadStr)
     {
 	llvm::FunctionCallee fc = GetFunction(voidPtrTy, { srcTy }, "__read_S_init");
 	descr = builder.CreateCall(fc, { sc });
     }
-    if (args.empty() && kind != ReadKind::ReadLn)
-    {
-	return NoOpValue();
-    }
 
     for (auto arg : args)
     {
diff --git a/runtime/read.c b/runtime/read.c
index fb4eab4..2617dd4 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -181,17 +181,17 @@ static void initFile(File* file, struct interface* intf)
 
 static int str_current(struct interface* intf)
 {
-    return intf->str->str[intf->strpos];
+    return (intf->strpos < intf->str->len) ? intf->str->str[intf->strpos] : EOF;
 }
 
 static int str_get_text(struct interface* intf)
 {
     if (intf->strpos == intf->str->len)
     {
-	return EOF;
+	return 0;
     }
     intf->strpos++;
-    return str_current(intf);
+    return 1;
 }
 
 static int str_eof(struct interface* intf)
-- 
2.43.0


From 198564e00801ef71b11f0cffe745b91e07d6208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 20/35] fix: components of typed files are converted to and
 from their type

An integer written to a file of longint or real was written as it is, with
what follows it in memory, a string constant without its length, and read
could store a longer component than the variable.
---
 expr.cpp      | 34 +++++++++++++++++++++++++++++++++-
 semantics.cpp |  9 +++++++--
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index a484569..aee817b 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3081,7 +3081,27 @@ llvm::Value* WriteAST::CodeGen()
 	}
 	else
 	{
-	    v = MakeAddressable(arg.expr);
+	    // What is written has to look like the elements of the file.
+	    auto fd = llvm::cast<Types::FileDecl>(dest->Type());
+	    auto elem = fd->SubType();
+	    if (!Types::IsCompound(elem))
+	    {
+		v = arg.expr->CodeGen();
+		llvm::Value* tmp = CreateTempAlloca(elem);
+		builder.CreateStore(v, tmp);
+		v = tmp;
+	    }
+	    else if (llvm::isa<Types::StringDecl>(elem))
+	    {
+		v = CreateTempAlloca(elem);
+		llvm::FunctionCallee fc = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+		                                      { v->getType(), v->getType() }, "__StrAssign");
+		builder.CreateCall(fc, { v, MakeStringFromExpr(arg.expr, elem) });
+	    }
+	    else
+	    {
+		v = MakeAddressable(arg.expr);
+	    }
 	    argsV.push_back(builder.CreateBitCast(v, voidPtrTy));
 	    fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy, voidPtrTy }, "__write_bin");
 	}
@@ -3228,6 +3248,18 @@ llvm::Value* ReadAST::CodeGen()
 	else
 	{
 	    fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { srcTy, voidPtrTy }, "__read_bin");
+	    auto elem = llvm::cast<Types::FileDecl>(src->Type())->SubType();
+	    if (!Types::IsCompound(elem) && elem->LlvmType() != ty->LlvmType())
+	    {
+		// An integer is assigned to a longint or real.
+		llvm::Value* tmp = CreateTempAlloca(elem);
+		builder.CreateCall(fn, { sc, tmp }, "");
+		llvm::Value* val = builder.CreateLoad(elem->LlvmType(), tmp, "val");
+		val = llvm::isa<Types::RealDecl>(ty) ? builder.CreateSIToFP(val, ty->LlvmType(), "tofp")
+		                                     : builder.CreateSExt(val, ty->LlvmType(), "sext");
+		v = builder.CreateStore(val, v);
+		continue;
+	    }
 	    v = builder.CreateBitCast(v, voidPtrTy);
 	}
 
diff --git a/semantics.cpp b/semantics.cpp
index 5768110..ac50e30 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -883,7 +883,7 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	    else
 	    {
 		auto fd = llvm::dyn_cast<Types::FileDecl>(r->src->Type());
-		if (!fd || !fd->SubType()->AssignableType(arg->Type()))
+		if (!fd || !arg->Type()->AssignableType(fd->SubType()))
 		{
 		    Error(arg, "Read argument should match elements of the file");
 		}
@@ -964,10 +964,15 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	{
 	    ExprAST* arg = w->args[0].expr;
 	    auto     fd = llvm::dyn_cast<Types::FileDecl>(w->dest->Type());
-	    if (!fd || !fd->SubType()->AssignableType(arg->Type()))
+	    auto     ty = fd ? fd->SubType()->AssignableType(arg->Type()) : 0;
+	    if (!ty)
 	    {
 		Error(arg, "Write argument should match elements of the file");
 	    }
+	    else if (!IsCompound(ty))
+	    {
+		w->args[0].expr = Recast(arg, ty);
+	    }
 	}
     }
 }
-- 
2.43.0


From df4f1a2e5c02f9863f70609eda032b82217e00ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 21/35] fix: failing to write the object or IR file fails the
 compilation

---
 binary.cpp | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/binary.cpp b/binary.cpp
index be1ce48..54485ac 100644
--- a/binary.cpp
+++ b/binary.cpp
@@ -46,7 +46,7 @@ static llvm::ToolOutputFile* GetOutputStream(const std::string& filename)
     llvm::ToolOutputFile*    FDOut = new llvm::ToolOutputFile(filename, error, OpenFlags);
     if (error)
     {
-	std::cerr << error << '\n';
+	std::cerr << "Could not open " << filename << ": " << error.message() << std::endl;
 	delete FDOut;
 	return 0;
     }
@@ -54,7 +54,21 @@ static llvm::ToolOutputFile* GetOutputStream(const std::string& filename)
     return FDOut;
 }
 
-static void CreateObject(llvm::Module* module, const std::string& objname)
+// Keep the file, but only if all of it has been written.
+static bool KeepOutput(llvm::ToolOutputFile& out, const std::string& filename)
+{
+    out.os().close();
+    if (std::error_code error = out.os().error())
+    {
+	std::cerr << "Could not write " << filename << ": " << error.message() << std::endl;
+	out.os().clear_error();
+	return false;
+    }
+    out.keep();
+    return true;
+}
+
+static bool CreateObject(llvm::Module* module, const std::string& objname)
 {
     TIME_TRACE();
     llvm::InitializeAllTargets();
@@ -69,7 +83,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     if (!target)
     {
 	std::cerr << "Error, could not find target: " << error << std::endl;
-	return;
+	return false;
     }
 
     std::string mcpu = llvm::codegen::getMCPU();
@@ -86,7 +100,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     if (!tm)
     {
 	std::cerr << "Error: Could not create targetmachine." << std::endl;
-	return;
+	return false;
     }
 
     llvm::legacy::PassManager           PM;
@@ -96,8 +110,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     std::unique_ptr<llvm::ToolOutputFile> Out(GetOutputStream(objname));
     if (!Out)
     {
-	std::cerr << "Could not open file ... " << std::endl;
-	return;
+	return false;
     }
 
     llvm::raw_pwrite_stream* OS = &Out->os();
@@ -107,10 +120,10 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
 	std::cerr << objname
 	          << ": target does not support generation of this"
 	             " file type!\n";
-	return;
+	return false;
     }
     PM.run(*module);
-    Out->keep();
+    return KeepOutput(*Out, objname);
 }
 
 std::string replace_ext(const std::string& origName, const std::string& expectedExt,
@@ -144,7 +157,10 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 	    modelStr = "-m32";
 	}
 
-	CreateObject(module, objname);
+	if (!CreateObject(module, objname))
+	{
+	    return false;
+	}
 	std::string verboseflags;
 	if (verbosity)
 	{
@@ -173,10 +189,15 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 
     std::string                           irName = replace_ext(filename, ".pas", ".ll");
     std::unique_ptr<llvm::ToolOutputFile> Out(GetOutputStream(irName));
-    llvm::formatted_raw_ostream           FOS(Out->os());
-    module->print(FOS, 0);
-    Out->keep();
-    return true;
+    if (!Out)
+    {
+	return false;
+    }
+    {
+	llvm::formatted_raw_ostream FOS(Out->os());
+	module->print(FOS, 0);
+    }
+    return KeepOutput(*Out, irName);
 }
 
 llvm::Module* CreateModule()
-- 
2.43.0


From 495267de72e0720bc3c26fbf6016ecdedfdaeb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 22/35] fix: the link command gets the files as they are named
 and its failures are told

The command went through a shell, which took spaces, quotes and the like in
the names for its own; the directory of the runtime library was not found
(and the compiler aborted) when it was started by way of PATH.
---
 binary.cpp | 78 ++++++++++++++++++++++++++++++++++++++----------------
 lacsap.cpp |  3 ++-
 utils.cpp  |  7 ++---
 3 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/binary.cpp b/binary.cpp
index 54485ac..4510fbe 100644
--- a/binary.cpp
+++ b/binary.cpp
@@ -16,6 +16,7 @@
 #include <llvm/Support/CodeGen.h>
 #include <llvm/Support/FileSystem.h>
 #include <llvm/Support/FormattedStream.h>
+#include <llvm/Support/Program.h>
 #include <llvm/Support/TargetSelect.h>
 #include <llvm/Support/ToolOutputFile.h>
 #include <llvm/Target/TargetMachine.h>
@@ -129,7 +130,8 @@ static bool CreateObject(llvm::Module* module, const std::string& objname)
 std::string replace_ext(const std::string& origName, const std::string& expectedExt,
                         const std::string& newExt)
 {
-    if (origName.substr(origName.size() - expectedExt.size()) != expectedExt)
+    if (origName.size() < expectedExt.size() ||
+        origName.substr(origName.size() - expectedExt.size()) != expectedExt)
     {
 	std::cerr << "Could not find extension..." << std::endl;
 	exit(1);
@@ -137,6 +139,46 @@ std::string replace_ext(const std::string& origName, const std::string& expected
     return origName.substr(0, origName.size() - expectedExt.size()) + newExt;
 }
 
+// The name of a file must not be taken for an option or for a list of options.
+static std::string LinkName(const std::string& filename)
+{
+    if (filename[0] == '-' || filename[0] == '@')
+    {
+	return "./" + filename;
+    }
+    return filename;
+}
+
+// Run the command as it is: there is no shell that could read anything into the arguments.
+static bool RunCommand(const std::vector<std::string>& args)
+{
+    if (verbosity)
+    {
+	std::cerr << "Executing final link command:";
+	for (const auto& a : args)
+	{
+	    std::cerr << ' ' << a;
+	}
+	std::cerr << std::endl;
+    }
+
+    llvm::ErrorOr<std::string> program = llvm::sys::findProgramByName(args[0]);
+    if (!program)
+    {
+	std::cerr << "Error: could not find " << args[0] << ": " << program.getError().message() << std::endl;
+	return false;
+    }
+    std::string                  error;
+    std::vector<llvm::StringRef> argv(args.begin(), args.end());
+    int res = llvm::sys::ExecuteAndWait(*program, argv, std::nullopt, {}, 0, 0, &error);
+    if (res != 0)
+    {
+	std::cerr << "Error: " << args[0] << ": " << (error.empty() ? std::to_string(res) : error) << std::endl;
+	return false;
+    }
+    return true;
+}
+
 bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType emit)
 {
     TIME_TRACE();
@@ -144,7 +186,6 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
     {
 	std::string objname = replace_ext(filename, ".pas", ".o");
 	std::string exename = replace_ext(filename, ".pas", "");
-	std::string modelStr;
 
 // Order matters here: clang, being gcc-compatible, will have __GNUC__ defined.
 #ifdef __clang__
@@ -152,38 +193,29 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 #elif defined(__GNUC__)
 	std::string compiler = "gcc";
 #endif
-	if (model == m32)
-	{
-	    modelStr = "-m32";
-	}
-
 	if (!CreateObject(module, objname))
 	{
 	    return false;
 	}
-	std::string verboseflags;
-	if (verbosity)
-	{
-	    verboseflags = " -v";
-	}
-	std::string debugFlag;
-	if (debugInfo)
+
+	std::vector<std::string> args = { compiler };
+	std::string              runtime = "-lruntime";
+	if (model == m32)
 	{
-	    debugFlag = " -g";
+	    args.push_back("-m32");
+	    runtime += "-m32";
 	}
-	std::string cmd = compiler + " " + modelStr + verboseflags + " " + objname + " -L\"" + libpath +
-	                  "\" -lruntime" + modelStr + debugFlag + " -lm -o " + exename;
 	if (verbosity)
 	{
-	    std::cerr << "Executing final link command: " << cmd << std::endl;
+	    args.push_back("-v");
 	}
-	int res = system(cmd.c_str());
-	if (res != 0)
+	args.insert(args.end(), { LinkName(objname), "-L" + libpath, runtime });
+	if (debugInfo)
 	{
-	    std::cerr << "Error: " << res << std::endl;
-	    return false;
+	    args.push_back("-g");
 	}
-	return true;
+	args.insert(args.end(), { "-lm", "-o", LinkName(exename) });
+	return RunCommand(args);
     }
     ICE_IF(emit != LlvmIr, "Expect LLVM IR here..");
 
diff --git a/lacsap.cpp b/lacsap.cpp
index 7099ee4..babbe84 100644
--- a/lacsap.cpp
+++ b/lacsap.cpp
@@ -16,6 +16,7 @@
 
 #include <llvm/IR/PassManager.h>
 #include <llvm/Support/CommandLine.h>
+#include <llvm/Support/FileSystem.h>
 #include <llvm/Support/TargetSelect.h>
 #include <llvm/Transforms/InstCombine/InstCombine.h>
 #include <llvm/Transforms/IPO.h>
@@ -200,7 +201,7 @@ static int Compile(const std::string& fileName)
 
 int main(int argc, char** argv)
 {
-    libpath = GetPath(argv[0]);
+    libpath = GetPath(llvm::sys::fs::getMainExecutable(argv[0], reinterpret_cast<void*>(&Compile)));
     llvm::cl::ParseCommandLineOptions(argc, argv);
     int res = Compile(InputFilename);
     return res;
diff --git a/utils.cpp b/utils.cpp
index a93574e..992b6e8 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -2,12 +2,13 @@
 #include <iostream>
 #include <limits.h>
 
+// The directory that the file is in.
 std::string GetPath(const std::string& filename)
 {
     char                   path[PATH_MAX];
-    std::string            compiler = realpath(filename.c_str(), path);
-    std::string::size_type pos = compiler.find_last_of("/");
-    return compiler.substr(0, pos);
+    std::string            name = realpath(filename.c_str(), path) ? path : filename;
+    std::string::size_type pos = name.find_last_of("/");
+    return pos == std::string::npos ? "." : name.substr(0, pos);
 }
 
 // TODO: Do we want a source location too?
-- 
2.43.0


From ee4fb65e2e2c761270b7dfb3c9fb926ee65fe654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 23/35] fix: a byte 255 in the source is not its end

---
 source.cpp | 4 ++--
 source.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source.cpp b/source.cpp
index 8f057bd..2a8e1b4 100644
--- a/source.cpp
+++ b/source.cpp
@@ -1,9 +1,9 @@
 #include "source.h"
 #include <iostream>
 
-char FileSource::Get()
+int FileSource::Get()
 {
-    char ch = input.get();
+    int ch = input.get();
     if (ch == '\n')
     {
 	lineNo++;
diff --git a/source.h b/source.h
index 46c34c6..c149d6f 100644
--- a/source.h
+++ b/source.h
@@ -11,7 +11,7 @@ class Source
 {
 public:
     virtual ~Source() {}
-    virtual char Get() = 0;
+    virtual int Get() = 0;
     virtual operator bool() const = 0;
     virtual operator Location() const = 0;
     virtual void PrintSource(uint32_t line) {}
@@ -21,7 +21,7 @@ class FileSource : public Source
 {
 public:
     FileSource(const std::string& name) : name(name), input(name), column(1), lineNo(1) { lineStart[1] = 0; }
-    char Get() override;
+    int Get() override;
     operator bool() const override { return (bool)input; }
     operator Location() const override { return Location(name, lineNo, column); }
     void PrintSource(uint32_t line) override;
-- 
2.43.0


From 9b4ade9848434ca2947081b50042355816febb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 24/35] fix: damaged source text is diagnosed instead of
 crashing the compiler

A program that is cut off or damaged could crash or hang the compiler (null
constants and types, builtins without arguments, units using themselves,
repeat without until, labels defined twice, divisions by zero in constants,
a case label that is maxint, ...) or be accepted in silence.
---
 builtin.cpp   |  21 +++++-
 constants.cpp |  41 ++++++++++--
 constants.h   |   1 +
 expr.cpp      |  27 +++++---
 lacsap.cpp    |   6 ++
 parser.cpp    | 174 +++++++++++++++++++++++++++++++++++++++-----------
 semantics.cpp |  13 +++-
 token.cpp     |   2 +
 8 files changed, 231 insertions(+), 54 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index b1902fa..a887754 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -74,7 +74,10 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override
+	{
+	    return args.empty() ? Types::Get<Types::RealDecl>() : args[0]->Type();
+	}
 	ErrorType        Semantics() override;
     };
 
@@ -82,7 +85,10 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override
+	{
+	    return args.empty() ? Types::Get<Types::RealDecl>() : args[0]->Type();
+	}
 	ErrorType        Semantics() override;
     };
 
@@ -546,12 +552,21 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgType;
 	}
+	if (args[0]->Type() != args[1]->Type() &&
+	    (!CastIntegerToReal(args[0]) || !CastIntegerToReal(args[1])))
+	{
+	    return ErrorType::WrongArgType;
+	}
 	return ErrorType::Ok;
     }
 
     /* Note that abs returnes "real" for complex, otherwise int or real depending on input type */
     Types::TypeDecl* FunctionAbs::Type() const
     {
+	if (args.empty())
+	{
+	    return Types::Get<Types::RealDecl>();
+	}
 	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
 	{
 	    return Types::Get<Types::RealDecl>();
@@ -656,7 +671,7 @@ namespace Builtin
 
     Types::TypeDecl* FunctionFloat::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (!args.empty() && llvm::isa<Types::ComplexDecl>(args[0]->Type()))
 	{
 	    return Types::Get<Types::ComplexDecl>();
 	}
diff --git a/constants.cpp b/constants.cpp
index 93010a9..566bab4 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -193,6 +193,12 @@ namespace Constants
 	return 0;
     }
 
+    static bool IsZero(const ConstDecl& cd)
+    {
+	const auto ci = llvm::dyn_cast<IntConstDecl>(&cd);
+	return ci && ci->Value() == 0;
+    }
+
     ConstDecl* operator+(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	ConstDecl* v = DoRealMath(rhs, lhs, [](double lv, double rv) { return lv + rv; });
@@ -246,6 +252,10 @@ namespace Constants
 	ConstDecl* v = DoRealMath(lhs, rhs, [](double lv, double rv) { return lv / rv; });
 	if (!v)
 	{
+	    if (IsZero(rhs))
+	    {
+		return ErrorConst("Division by zero");
+	    }
 	    v = DoIntegerMath(lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv / rv; });
 	}
 	if (!v)
@@ -268,6 +278,10 @@ namespace Constants
 
     ConstDecl* operator%(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (IsZero(rhs))
+	{
+	    return ErrorConst("Division by zero");
+	}
 	return IntegerOrErrorMath(
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv % rv; }, "mod");
     }
@@ -317,7 +331,7 @@ namespace Constants
     }
 
     template<typename T>
-    static T PowerToInt(T x, int y)
+    static T PowerToInt(T x, int64_t y)
     {
 	if (y == 0)
 	{
@@ -348,6 +362,10 @@ namespace Constants
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(&lhs))
 	{
 	    int x = ic->Value();
+	    if (x == 0 && y < 0)
+	    {
+		return ErrorConst("Division by zero");
+	    }
 	    return new IntConstDecl(ic->Loc(), PowerToInt(x, y));
 	}
 
@@ -361,8 +379,12 @@ namespace Constants
 
     ConstDecl* Power(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	const RealConstDecl* l = llvm::cast<RealConstDecl>(ToRealConstDecl(&lhs));
-	const RealConstDecl* r = llvm::cast<RealConstDecl>(ToRealConstDecl(&rhs));
+	const RealConstDecl* l = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(&lhs));
+	const RealConstDecl* r = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(&rhs));
+	if (!l || !r)
+	{
+	    return 0;
+	}
 	double               x = l->Value();
 	double               y = r->Value();
 	return new RealConstDecl(l->Loc(), exp(log(x) * y));
@@ -423,7 +445,13 @@ namespace Constants
 	      return UpdateValueSameType(args[0], [n](int64_t v) { return v - n; });
 	  } },
 	{ "ord", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
-	  { return new IntConstDecl(args[0]->Loc(), ToInt(args[0])); } },
+	  {
+	      if (HasIntValue(args[0]))
+	      {
+	          return new IntConstDecl(args[0]->Loc(), ToInt(args[0]));
+	      }
+	      return 0;
+	  } },
 	{ "length", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
@@ -558,6 +586,11 @@ namespace Constants
 	return FindEvaluableFunc(name) != 0;
     }
 
+    bool HasIntValue(const ConstDecl* c)
+    {
+	return llvm::isa<IntConstDecl, CharConstDecl, EnumConstDecl, BoolConstDecl>(c);
+    }
+
     int64_t ToInt(const ConstDecl* c)
     {
 	if (auto ci = llvm::dyn_cast<IntConstDecl>(c))
diff --git a/constants.h b/constants.h
index 76169a3..7792474 100644
--- a/constants.h
+++ b/constants.h
@@ -160,6 +160,7 @@ namespace Constants
     // Yes, evaluable is the "more correct" word.
     bool IsEvaluableFunc(const std::string& name);
 
+    bool    HasIntValue(const ConstDecl* c);
     int64_t ToInt(const ConstDecl* c);
     const ConstDecl* ToRealConstDecl(const ConstDecl* c);
 
diff --git a/expr.cpp b/expr.cpp
index aee817b..ec541ad 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3608,7 +3608,7 @@ llvm::Value* CaseExprAST::CodeGen()
 	{
 	    if (Distance(val) <= MaxRangeInSwitch)
 	    {
-		for (int i = val.first; i <= val.second; i++)
+		for (int64_t i = val.first; i <= val.second; i++)
 		{
 		    auto intTy = llvm::dyn_cast<llvm::IntegerType>(ty);
 		    sw->addCase(llvm::ConstantInt::get(intTy, i), ll.second);
@@ -3937,6 +3937,13 @@ llvm::Value* RangeCheckAST::CodeGen()
 {
     TRACE();
 
+    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
+    if (!rr)
+    {
+	// Bounds only known at runtime.
+	return RangeReduceAST::CodeGen();
+    }
+
     llvm::Value* index = expr->CodeGen();
     ICE_IF(!index, "Expected expression to generate code");
     ICE_IF(!index->getType()->isIntegerTy(), "Index is supposed to be integral type");
@@ -3944,8 +3951,6 @@ llvm::Value* RangeCheckAST::CodeGen()
     llvm::Value* orig_index = index;
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 
-    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
-    ICE_IF(rr, "Expect a rangedecl here");
     int start = rr->Start();
     if (start)
     {
@@ -3965,7 +3970,7 @@ llvm::Value* RangeCheckAST::CodeGen()
 	}
     }
     int               end = rr->GetRange()->Size();
-    llvm::Value*      cmp = builder.CreateICmpUGE(index, MakeIntegerConstant(end), "rangecheck");
+    llvm::Value*      cmp = builder.CreateICmpUGE(index, llvm::ConstantInt::get(index->getType(), end), "rangecheck");
     llvm::Function*   theFunction = builder.GetInsertBlock()->getParent();
     llvm::BasicBlock* oorBlock = llvm::BasicBlock::Create(theContext, "out_of_range", theFunction);
     llvm::BasicBlock* contBlock = llvm::BasicBlock::Create(theContext, "continue", theFunction);
@@ -3974,7 +3979,7 @@ llvm::Value* RangeCheckAST::CodeGen()
     builder.SetInsertPoint(oorBlock);
     std::vector<llvm::Value*> args = { builder.CreateGlobalString(Loc().FileName()),
 	                               MakeIntegerConstant(Loc().LineNumber()), MakeIntegerConstant(start),
-	                               MakeIntegerConstant(end), orig_index };
+	                               MakeIntegerConstant(end), builder.CreateSExtOrTrunc(orig_index, intTy) };
     std::vector<llvm::Type*>  argTypes = {
         llvm::PointerType::getUnqual(Types::Get<Types::CharDecl>()->LlvmType()), intTy, intTy, intTy, intTy
     };
@@ -4550,16 +4555,15 @@ llvm::Value* InitArrayAST::CodeGen()
 	    ICE("Unknown initializer kind");
 	}
     }
+    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
     for (auto& i : initArr)
     {
 	if (!i)
 	{
-	    i = otherwise;
+	    i = otherwise ? otherwise : llvm::Constant::getNullValue(arrty->getElementType());
 	}
     }
 
-    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
-
     llvm::Constant* init = llvm::ConstantArray::get(arrty,
                                                     llvm::ArrayRef<llvm::Constant*>(initArr.data(), size));
     return init;
@@ -4604,6 +4608,13 @@ llvm::Value* InitRecordAST::CodeGen()
 	}
     }
     auto ty = llvm::dyn_cast<llvm::StructType>(type->LlvmType());
+    for (size_t i = 0; i < initArr.size(); i++)
+    {
+	if (!initArr[i])
+	{
+	    initArr[i] = llvm::Constant::getNullValue(ty->getElementType(i));
+	}
+    }
 
     llvm::Constant* init = llvm::ConstantStruct::get(ty, initArr);
     return init;
diff --git a/lacsap.cpp b/lacsap.cpp
index babbe84..bfb9675 100644
--- a/lacsap.cpp
+++ b/lacsap.cpp
@@ -150,6 +150,12 @@ static int Compile(const std::string& fileName)
 	return 1;
     }
 
+    if (!ast)
+    {
+	std::cerr << "Nothing to compile in " << fileName << std::endl;
+	return 1;
+    }
+
     BuildClosures(ast);
 
     Semantics sema;
diff --git a/parser.cpp b/parser.cpp
index a10a0bc..37f9944 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <set>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -129,6 +130,7 @@ public:
     Token TranslateToken(const Token& token);
 
     const Constants::ConstDecl* ParseConstExpr(const TerminatorList& terminators);
+    const Constants::ConstDecl* ParseOrdinalConst(const TerminatorList& terminators);
     const Constants::ConstDecl* ParseConstRHS(int exprPrec, const Constants::ConstDecl* lhs);
     Constants::ConstDecl*       ParseConstEval(const Constants::ConstDecl* lhs, const Token& binOp,
                                                const Constants::ConstDecl* rhs);
@@ -212,6 +214,7 @@ private:
     int                       errCnt;
     Stack<const NamedObject*> nameStack;
     std::vector<ExprAST*>     ast;
+    std::set<const NamedObject*> definedLabels;
 };
 
 using NameWrapper = StackWrapper<const NamedObject*>;
@@ -655,6 +658,11 @@ int64_t Parser::ParseConstantValue(Token::TokenType& tt, Types::TypeDecl*& type)
 
 	if (const Constants::ConstDecl* cd = GetConstDecl(name))
 	{
+	    if (!Constants::HasIntValue(cd))
+	    {
+		tt = Token::Unknown;
+		return ErrorT(int, "Invalid constant, expected one of ordinal type");
+	    }
 	    type = cd->Type();
 	    result = Constants::ToInt(cd);
 	}
@@ -708,11 +716,15 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 
 	if (const Constants::ConstDecl* endC = ParseConstExpr({ endToken, altToken }))
 	{
+	    if (!Constants::HasIntValue(startC) || !Constants::HasIntValue(endC) ||
+	        startC->Type() != endC->Type())
+	    {
+		return Error("Expected constants of the same ordinal type in range");
+	    }
 	    int64_t start = Constants::ToInt(startC);
 	    int64_t end = Constants::ToInt(endC);
 
 	    type = startC->Type();
-	    ICE_IF(type != endC->Type(), "Expect same type on both sides");
 	    if (end < start)
 	    {
 		return Error("Invalid range specification");
@@ -770,7 +782,7 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	}
     }
 
-    if (schema)
+    if (schema && startC && Constants::HasIntValue(startC))
     {
 	std::string name = GetIdentifier(ExpectConsume);
 	if (const VarDef* def = schema->FindVar(name))
@@ -828,6 +840,7 @@ Constants::ConstDecl* Parser::ParseConstEval(const Constants::ConstDecl* lhs, co
 	{
 	    return *tmpL / *tmpR;
 	}
+	return Error("Expected numeric constants for '/' operation");
     }
 
     case Token::Div:
@@ -887,15 +900,20 @@ const Constants::ConstDecl* Parser::ParseConstFunction(const std::string& name)
 	for (;;)
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::RightParen });
+	    if (!cd)
+	    {
+		return 0;
+	    }
 	    args.push_back(cd);
 	    if (AcceptToken(Token::Comma))
 	    {
 		continue;
 	    }
-	    else if (Expect(Token::RightParen, ExpectConsume))
+	    if (!Expect(Token::RightParen, ExpectConsume))
 	    {
-		return Constants::EvalFunction(name, args);
+		return 0;
 	    }
+	    return Constants::EvalFunction(name, args);
 	}
     }
     return 0;
@@ -907,22 +925,26 @@ public:
     CCConstSetList() : ListConsumer{ Token::Comma, Token::RightSquare, ListConsumer::AllowEmpty::Yes } {}
     bool Consume(Parser& parser) override
     {
-	if (const Constants::ConstDecl* cd = parser.ParseConstExpr(
+	if (const Constants::ConstDecl* cd = parser.ParseOrdinalConst(
 	        { Token::DotDot, Token::Comma, Token::RightSquare }))
 	{
 	    Location loc = cd->Loc();
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
-		if (const Constants::ConstDecl* cde = parser.ParseConstExpr(
+		if (const Constants::ConstDecl* cde = parser.ParseOrdinalConst(
 		        { Token::Comma, Token::RightSquare }))
 		{
 		    Types::TypeDecl* type = cd->Type();
 		    if (type != cde->Type())
 		    {
-			return false;
+			return parser.ErrorT(bool, "Expected constants of the same type in range");
 		    }
 		    int64_t start = Constants::ToInt(cd);
 		    int64_t end = Constants::ToInt(cde);
+		    if (end < start)
+		    {
+			return parser.ErrorT(bool, "Invalid range specification");
+		    }
 		    cd = new Constants::RangeConstDecl(loc, type, Types::Range(start, end));
 		}
 		else
@@ -1165,30 +1187,41 @@ const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants:
 		return 0;
 	    }
 	}
-	lhs = ParseConstEval(lhs, binOp, rhs);
+	if (!(lhs = ParseConstEval(lhs, binOp, rhs)))
+	{
+	    return 0;
+	}
     }
 }
 
 const Constants::ConstDecl* Parser::ParseConstExpr(const TerminatorList& terminators)
 {
     const Location              loc = CurrentToken().Loc();
-    const Constants::ConstDecl* cd;
+    const Constants::ConstDecl* cd = ParseConstTerm(loc);
 
-    do
+    if (cd && !IsOneOf(CurrentToken().GetToken(), terminators))
     {
-	if (!(cd = ParseConstTerm(loc)))
-	{
-	    return 0;
-	}
+	cd = ParseConstRHS(0, cd);
+    }
+    if (cd && !IsOneOf(CurrentToken().GetToken(), terminators))
+    {
+	return Error("Unexpected token after constant");
+    }
+    return cd;
+}
 
-	if (!IsOneOf(CurrentToken().GetToken(), terminators))
-	{
-	    if (!(cd = ParseConstRHS(0, cd)))
-	    {
-		return 0;
-	    }
-	}
-    } while (!IsOneOf(CurrentToken().GetToken(), terminators));
+// A constant that can be a case label, the end of a range and so on.
+const Constants::ConstDecl* Parser::ParseOrdinalConst(const TerminatorList& terminators)
+{
+    const Constants::ConstDecl* cd = ParseConstExpr(terminators);
+    if (!cd)
+    {
+	return Error("Expected a constant");
+    }
+    if (!Constants::HasIntValue(cd))
+    {
+	return Error("Expected a constant of ordinal type");
+    }
     return cd;
 }
 
@@ -1739,7 +1772,7 @@ bool Parser::ParseFields(std::vector<Types::FieldDecl*>& fields, Types::VariantD
 	                     CurrentToken().GetToken() == Token::Procedure))
 	{
 	    PrototypeAST* p = ParsePrototype(NamePolicy::Named);
-	    if (!Expect(Token::Semicolon, ExpectConsume))
+	    if (!p || !Expect(Token::Semicolon, ExpectConsume))
 	    {
 		return false;
 	    }
@@ -2023,7 +2056,11 @@ Types::TypeDecl* Parser::ExpandSchema(Types::TypeDecl* ty)
     std::vector<int64_t> vals;
     do
     {
-	const Constants::ConstDecl* c = ParseConstExpr({ Token::Comma, Token::RightParen });
+	const Constants::ConstDecl* c = ParseOrdinalConst({ Token::Comma, Token::RightParen });
+	if (!c)
+	{
+	    return 0;
+	}
 	vals.push_back(ToInt(c));
 	AcceptToken(Token::Comma);
     } while (!AcceptToken(Token::RightParen));
@@ -2227,7 +2264,7 @@ ExprAST* Parser::ParseBinOpRHS(int exprPrec, ExprAST* lhs)
     {
 	Token binOp = CurrentToken();
 	int   tokPrec = binOp.Precedence();
-	if (tokPrec < exprPrec)
+	if (tokPrec < exprPrec || binOp.GetToken() == Token::Assign || binOp.GetToken() == Token::Not)
 	{
 	    return lhs;
 	}
@@ -2309,10 +2346,16 @@ public:
 	{
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
-		if (ExprAST* ee = parser.ParseExpression())
+		ExprAST* ee = parser.ParseExpression();
+		if (!ee)
 		{
-		    e = new RangeExprAST(e->Loc(), e, ee);
+		    return false;
 		}
+		if (*e->Type() != *ee->Type())
+		{
+		    return parser.ErrorT(bool, "Range should be same type at both ends");
+		}
+		e = new RangeExprAST(e->Loc(), e, ee);
 	    }
 	    exprs.push_back(e);
 	    return true;
@@ -2438,7 +2481,7 @@ ExprAST* Parser::MakeCallExpr(const NamedObject* def, std::vector<ExprAST*>& arg
     }
     else
     {
-	ICE("Unsupported call type");
+	return Error("Name '" + def->Name() + "' can not be called");
     }
     return MakeSimpleCall(expr, proto, args);
 }
@@ -2975,6 +3018,14 @@ public:
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
 		ExprAST* vEnd = parser.ParseExpression();
+		if (!vEnd)
+		{
+		    return false;
+		}
+		if (*v->Type() != *vEnd->Type())
+		{
+		    return parser.ErrorT(bool, "Range should be same type at both ends");
+		}
 		v = new RangeExprAST(parser.CurrentToken().Loc(), v, vEnd);
 	    }
 	    values.push_back(v);
@@ -2991,7 +3042,10 @@ private:
 ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
 {
     TRACE();
-    AssertToken(Token::LeftSquare);
+    if (!Expect(Token::LeftSquare, ExpectConsume))
+    {
+	return 0;
+    }
 
     const Location loc = CurrentToken().Loc();
     CCSetList      ccs;
@@ -3066,6 +3120,10 @@ public:
 	if (parser.AcceptToken(Token::Otherwise))
 	{
 	    ExprAST* e = parser.ParseInitValue(type->SubType());
+	    if (!e)
+	    {
+		return false;
+	    }
 	    list.push_back({ e });
 	    return true;
 	}
@@ -3165,11 +3223,13 @@ public:
 	    if (!parser.AcceptToken(Token::Comma))
 	    {
 		parser.Expect(Token::Colon, ExpectConsume);
-		if (ExprAST* e = parser.ParseInitValue(fty->SubType()))
+		ExprAST* e = parser.ParseInitValue(fty->SubType());
+		if (!e)
 		{
-		    list.push_back({ elems, e });
-		    return true;
+		    return false;
 		}
+		list.push_back({ elems, e });
+		return true;
 	    }
 	} while (true);
     }
@@ -3545,6 +3605,10 @@ ExprAST* Parser::ParseStatement()
 	    if (AcceptToken(Token::Assign))
 	    {
 		const Location loc = CurrentToken().Loc();
+		if (!expr->Type())
+		{
+		    return Error("Invalid assignment");
+		}
 		if (ExprAST* rhs = ParseExpression())
 		{
 		    expr = new AssignExprAST(loc, expr, rhs);
@@ -3579,11 +3643,16 @@ BlockAST* Parser::ParseBlock(Location& endLoc)
 	    AcceptToken(Token::Integer);
 	    AcceptToken(Token::Colon);
 	    int n = token.GetIntVal();
-	    if (!nameStack.FindTopLevel(std::to_string(n)))
+	    const NamedObject* label = nameStack.FindTopLevel(std::to_string(n));
+	    if (!label)
 	    {
 		std::cerr << "Label=" << n << " at " << token.Loc() << std::endl;
 		return Error("Can't use label in a different scope than the declaration");
 	    }
+	    if (!definedLabels.insert(label).second)
+	    {
+		return Error("Label " + std::to_string(n) + " is already defined");
+	    }
 	    v.push_back(new LabelExprAST(token.Loc(), { { n, n } }, 0));
 	}
 	else if (ExprAST* ast = ParseStatement())
@@ -3900,7 +3969,10 @@ ExprAST* Parser::ParseRepeat()
 	if (ExprAST* stmt = ParseStatement())
 	{
 	    v.push_back(stmt);
-	    AcceptToken(Token::Semicolon);
+	    if (!AcceptToken(Token::Semicolon) && CurrentToken().GetToken() == Token::End)
+	    {
+		return Error("Expected 'until'");
+	    }
 	}
 	else
 	{
@@ -3953,8 +4025,12 @@ ExprAST* Parser::ParseCaseExpr()
 	}
 	else
 	{
-	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Colon, Token::DotDot });
-	    int                         value = Constants::ToInt(cd);
+	    const Constants::ConstDecl* cd = ParseOrdinalConst({ Token::Comma, Token::Colon, Token::DotDot });
+	    if (!cd)
+	    {
+		return 0;
+	    }
+	    int value = Constants::ToInt(cd);
 	    if (type)
 	    {
 		if (type != cd->Type())
@@ -3969,7 +4045,11 @@ ExprAST* Parser::ParseCaseExpr()
 	    int end = value;
 	    if (AcceptToken(Token::DotDot))
 	    {
-		cd = ParseConstExpr({ Token::Comma, Token::Colon });
+		cd = ParseOrdinalConst({ Token::Comma, Token::Colon });
+		if (!cd)
+		{
+		    return 0;
+		}
 		if (type != cd->Type())
 		{
 		    return Error("Expected case labels to have same type");
@@ -4481,9 +4561,20 @@ ExprAST* Parser::ParseUses()
 	    {
 		return Error("Could not open " + fileName);
 	    }
+	    // Units that are being read, to tell when one of them (indirectly) uses itself.
+	    static std::set<std::string> active;
+	    if (!active.insert(fileName).second)
+	    {
+		return Error("Unit '" + unitname + "' uses itself");
+	    }
 	    Parser   p(source);
 	    ExprAST* e = p.Parse(ParserType::Unit);
+	    active.erase(fileName);
 	    errCnt += p.GetErrors();
+	    if (!e)
+	    {
+		return Error("Could not use unit '" + unitname + "'");
+	    }
 	    if (Expect(Token::Semicolon, ExpectConsume))
 	    {
 		if (auto ua = llvm::dyn_cast_or_null<UnitAST>(e))
@@ -4600,6 +4691,8 @@ ExprAST* Parser::ParseUnit(ParserType type)
     do
     {
 	ExprAST* curAst = 0;
+	int      errors = errCnt;
+	bool     expectAst = false;
 	switch (CurrentToken().GetToken())
 	{
 	case Token::EndOfFile:
@@ -4607,6 +4700,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
 
 	case Token::Uses:
 	    curAst = ParseUses();
+	    expectAst = true;
 	    break;
 
 	case Token::Import:
@@ -4620,10 +4714,12 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	case Token::Function:
 	case Token::Procedure:
 	    curAst = ParseDefinition(0);
+	    expectAst = true;
 	    break;
 
 	case Token::Var:
 	    curAst = ParseVarDecls();
+	    expectAst = true;
 	    break;
 
 	case Token::Type:
@@ -4696,6 +4792,10 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	{
 	    ast.push_back(curAst);
 	}
+	else if (expectAst && errCnt == errors)
+	{
+	    Error("Syntax error");
+	}
     } while (!finished);
     return new UnitAST(unitloc, ast, initFunction, interfaceList);
 }
diff --git a/semantics.cpp b/semantics.cpp
index ac50e30..ce0f799 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -580,7 +580,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
     }
 
     const Types::TypeDecl* ty = lty->AssignableType(rty);
-    if (!ty)
+    if (!ty || (llvm::isa<Types::ArrayDecl>(ty) && !llvm::isa<Types::StringDecl>(ty) && !IsCompound(rty)))
     {
 	Error(a, "Incompatible type in assignment");
 	return;
@@ -628,11 +628,16 @@ void TypeCheckVisitor::Check<ArrayExprAST>(ArrayExprAST* a)
 	{
 	    Error(e, "Index should be an integral type");
 	}
-	auto r = llvm::dyn_cast<Types::RangeDecl>(a->ranges[i]);
+	auto r = llvm::dyn_cast_or_null<Types::RangeDecl>(a->ranges[i]);
 	if (llvm::isa<RangeReduceAST>(e))
 	{
 	    continue;
 	}
+	if (!r)
+	{
+	    Error(a, "Invalid range for index");
+	    continue;
+	}
 	if (r->Type() != e->Type()->Type() && !e->Type()->CompatibleType(r))
 	{
 	    Error(a, "Incorrect index type");
@@ -937,6 +942,10 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 		    Error(e, "Write argument must be simple type or array of char or string");
 		}
 	    }
+	    else if (!IsIntegral(e->Type()) && !llvm::isa<Types::RealDecl>(e->Type()))
+	    {
+		Error(e, "Write argument must be simple type or array of char or string");
+	    }
 	    else if (arg.precision)
 	    {
 		if (!llvm::isa<Types::RealDecl>(e->Type()))
diff --git a/token.cpp b/token.cpp
index 21858bf..9045060 100644
--- a/token.cpp
+++ b/token.cpp
@@ -187,6 +187,8 @@ const TokenEntry tokenTable[] = {
     { Token::SizeOf, true, -1, "sizeof" },
     { Token::Identifier, false, -1, "identifier" },
     { Token::Unknown, false, -1, "Unknown" },
+    { Token::Overflow, false, -1, "number out of range" },
+    { Token::UntermString, false, -1, "unterminated string" },
     { Token::EndOfFile, false, -1, "EOF" },
 };
 
-- 
2.43.0


From 0abade5737584fc5a2bb4388eb0d25281db94b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 25/35] fix: initializers and labels that do not fit are
 diagnosed instead of crashing the compiler

---
 builtin.cpp   |  3 +--
 expr.cpp      | 17 +++++++++++++++++
 expr.h        |  2 ++
 lacsap.cpp    |  5 +++++
 parser.cpp    | 49 +++++++++++++++++++++++++++++++++++++++++++++++--
 semantics.cpp |  1 +
 6 files changed, 73 insertions(+), 4 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index a887754..8a33ca8 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -635,8 +635,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 	    llvm::Type*     cplxTy = Types::Get<Types::ComplexDecl>()->LlvmType();
 
diff --git a/expr.cpp b/expr.cpp
index ec541ad..be065b7 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -260,6 +260,11 @@ static std::nullptr_t Error(const ExprAST* e, const std::string& msg)
     return 0;
 }
 
+int CodeGenErrors()
+{
+    return errCnt;
+}
+
 static llvm::Constant* NoOpValue()
 {
     return MakeIntegerConstant(0);
@@ -2206,6 +2211,14 @@ llvm::Function* FunctionAST::CodeGen(const std::string& namePrefix)
 	di.lexicalBlocks.pop_back();
     }
 
+    for (auto& bb : *theFunction)
+    {
+	if (!bb.getTerminator())
+	{
+	    return Error(this, "Label " + bb.getName().str() + " is used, but not defined");
+	}
+    }
+
     if (!debugInfo && body && emitType != LlvmIr)
     {
 	llvm::raw_os_ostream err(std::cerr);
@@ -2335,6 +2348,10 @@ llvm::Value* AssignExprAST::CodeGen()
     }
 
     llvm::Value* dest = lhsv->Address();
+    if (!dest)
+    {
+	return 0;
+    }
 
     // If rhs is a simple variable, and "large", then use memcpy on it!
     size_t size = rhs->Type()->Size();
diff --git a/expr.h b/expr.h
index 01fc16d..397e57e 100644
--- a/expr.h
+++ b/expr.h
@@ -243,6 +243,7 @@ public:
     void            DoDump() const override;
     llvm::Value*    Address() override;
     llvm::Constant* MakeConstantSetArray();
+    const std::vector<ExprAST*>& Values() const { return values; }
     llvm::Value*    MakeConstantSet();
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
 
@@ -1128,6 +1129,7 @@ llvm::Constant*      MakeConstant(uint64_t val, Types::TypeDecl* ty);
 llvm::Value*         MakeAddressable(ExprAST* e);
 llvm::Value*         MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty);
 void                 BackPatch();
+int                  CodeGenErrors();
 void                 ReleaseFiles(llvm::Value* v, const Types::TypeDecl* ty);
 llvm::FunctionCallee GetFunction(llvm::Type* resTy, const std::vector<llvm::Type*>& args,
                                  const std::string& name);
diff --git a/lacsap.cpp b/lacsap.cpp
index bfb9675..1417c42 100644
--- a/lacsap.cpp
+++ b/lacsap.cpp
@@ -188,6 +188,11 @@ static int Compile(const std::string& fileName)
 	    return 1;
 	}
 	BackPatch();
+	if (int e = CodeGenErrors())
+	{
+	    std::cerr << "Errors in code generation: " << e << ".\nExiting..." << std::endl;
+	    return 1;
+	}
     }
 
 #if !NDEBUG
diff --git a/parser.cpp b/parser.cpp
index 37f9944..0c09e7d 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -122,6 +122,7 @@ public:
                          const std::string& resultName);
 
     ExprAST* ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* c);
+    ExprAST* MakeInitValue(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* cd);
     ExprAST* ParseInitValue(Types::TypeDecl* ty);
 
     // Type declarations and defintitions
@@ -3155,6 +3156,14 @@ public:
 		end = Constants::ToInt(cd);
 		hasEnd = true;
 	    }
+	    if (type->Ranges().size() == 1)
+	    {
+		Types::Range* r = type->Ranges()[0]->GetRange();
+		if (value < r->Start() || value > r->End() || (hasEnd && (end < value || end > r->End())))
+		{
+		    return parser.ErrorT(bool, "Initializer index is out of range");
+		}
+	    }
 	    parser.Expect(Token::Colon, ExpectConsume);
 	    ExprAST* e = parser.ParseInitValue(type->SubType());
 	    if (!e)
@@ -3240,6 +3249,33 @@ private:
     Types::FieldCollection* type;
 };
 
+ExprAST* Parser::MakeInitValue(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* cd)
+{
+    ExprAST* e = ConstDeclToExpr(loc, ty, cd);
+    if (!e)
+    {
+	return 0;
+    }
+    if (llvm::isa<Types::StringDecl>(ty) && llvm::isa<Constants::CharConstDecl>(cd))
+    {
+	e = new StringExprAST(loc, std::string(1, Constants::ToInt(cd)), ty);
+    }
+    if (auto sc = llvm::dyn_cast<Constants::StringConstDecl>(cd))
+    {
+	auto   aty = llvm::dyn_cast<Types::ArrayDecl>(ty);
+	size_t room = aty && IsCharArray(ty) && aty->Ranges().size() == 1 ? aty->Ranges()[0]->RangeSize() : 0;
+	if (auto sd = llvm::dyn_cast<Types::StringDecl>(ty))
+	{
+	    room = sd->Capacity();
+	}
+	if (!room || sc->Value().size() > room)
+	{
+	    return Error("String does not fit in what it initializes");
+	}
+    }
+    return new InitValueAST(loc, ty, { e });
+}
+
 ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 {
     TRACE();
@@ -3249,6 +3285,15 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     {
 	if (ExprAST* e = ParseSetExpr(ty))
 	{
+	    auto isInt = [](ExprAST* v) { return llvm::isa<IntegerExprAST>(v); };
+	    for (auto v : llvm::dyn_cast<SetExprAST>(e)->Values())
+	    {
+		auto r = llvm::dyn_cast<RangeExprAST>(v);
+		if (r ? !isInt(r->LowExpr()) || !isInt(r->HighExpr()) : !isInt(v))
+		{
+		    return Error("Expected constant set elements");
+		}
+	    }
 	    return new InitValueAST(loc, ty, { e });
 	}
 	return 0;
@@ -3274,7 +3319,7 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 		    return Error("Incompatible type");
 		}
 		NextToken();
-		return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+		return MakeInitValue(loc, ty, cd);
 	    }
 	    return Error("Unexpected identifier");
 	}
@@ -3308,7 +3353,7 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
                                                           Token::RightSquare, Token::Otherwise,
                                                           Token::RightParen }))
     {
-	return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+	return MakeInitValue(loc, ty, cd);
     }
     return 0;
 }
diff --git a/semantics.cpp b/semantics.cpp
index ce0f799..f91fc6d 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -793,6 +793,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	{
 	    bad = true;
 	}
+	bad = bad || !IsIntegral(f->start->Type()) || !IsIntegral(f->end->Type());
     }
     // No end = for x in set
     else
-- 
2.43.0


From f674b17f54f1341900b8a913f02d08070656b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 26/35] fix: the buffer variable of any file can be used, not
 only of a plain variable

---
 expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index be065b7..74125d8 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -658,8 +658,8 @@ void FilePointerExprAST::DoDump() const
 llvm::Value* FilePointerExprAST::Address()
 {
     TRACE();
-    auto vptr = llvm::dyn_cast<VariableExprAST>(pointer);
-    ICE_IF(!vptr, "Expected variable expression!");
+    auto vptr = llvm::dyn_cast<AddressableAST>(pointer);
+    ICE_IF(!vptr, "Expected addressable value!");
     llvm::Value* v = vptr->Address();
     // The runtime may have to fetch the current component first.
     llvm::FunctionCallee f = GetFunction(llvm::PointerType::getUnqual(Type()->LlvmType()), { v->getType() },
-- 
2.43.0


From fe4b83e11d9e8a83676330585a607896d6d15559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 27/35] fix: appending to a typed file starts at the end of its
 last whole component

---
 runtime/fileio.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/runtime/fileio.c b/runtime/fileio.c
index 221fda8..d2fd824 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -1,3 +1,4 @@
+#define _POSIX_C_SOURCE 200809L
 #include "runtime.h"
 #include <stdlib.h>
 #include <string.h>
@@ -88,4 +89,14 @@ void __rewrite(File* f, int recSize, int isText)
 void __append(File* f, int recSize, int isText)
 {
     OpenFile(f, recSize, isText, "a");
+    if (!isText)
+    {
+	// A program that was stopped in the middle of a component may have left a part of that.
+	FILE* file = files[f->handle].file;
+	long  len = fseek(file, 0, SEEK_END) ? -1 : ftell(file);
+	if (len < 0 || (len % recSize && ftruncate(fileno(file), len - len % recSize)))
+	{
+	    FileError("open");
+	}
+    }
 }
-- 
2.43.0


From ead0127a550ffdf991bd83fcb1fb0952f57bfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 28/35] fix: date and time give a string that can be used as
 such

---
 builtin.cpp            | 50 ++++++++++--------------------------------
 runtime/gettimestamp.c | 10 ++++-----
 2 files changed, 16 insertions(+), 44 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8a33ca8..ba575c2 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -427,28 +427,20 @@ namespace Builtin
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
-    class FunctionTime : public FunctionBase
+    class FunctionTime : public FunctionString
     {
     public:
-	FunctionTime(const std::string& fn, ArgList& a);
-	ErrorType        Semantics() override;
-	llvm::Value*     CodeGen(llvm::IRBuilder<>& builder) override;
-	Types::TypeDecl* Type() const override { return arrayType; }
-
-    private:
-	Types::TypeDecl* arrayType;
+	using FunctionString::FunctionString;
+	ErrorType    Semantics() override;
+	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
-    class FunctionDate : public FunctionBase
+    class FunctionDate : public FunctionString
     {
     public:
-	FunctionDate(const std::string& fn, ArgList& a);
-	ErrorType        Semantics() override;
-	llvm::Value*     CodeGen(llvm::IRBuilder<>& builder) override;
-	Types::TypeDecl* Type() const override { return arrayType; }
-
-    private:
-	Types::TypeDecl* arrayType;
+	using FunctionString::FunctionString;
+	ErrorType    Semantics() override;
+	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
     class FunctionBinding : public FunctionFile
@@ -1633,13 +1625,6 @@ namespace Builtin
 	return builder.CreateCall(f, { tsaddr });
     }
 
-    FunctionTime::FunctionTime(const std::string& fn, ArgList& a) : FunctionBase(fn, a)
-    {
-	arrayType = new Types::ArrayDecl(
-	    Types::Get<Types::CharDecl>(),
-	    { new Types::RangeDecl(new Types::Range(1, 9), Types::Get<Types::IntegerDecl>()) });
-    }
-
     ErrorType FunctionTime::Semantics()
     {
 	if (args.size() != 1)
@@ -1655,24 +1640,15 @@ namespace Builtin
 
     llvm::Value* FunctionTime::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* storage = CreateTempAlloca(arrayType);
+	llvm::Value* storage = CreateTempAlloca(Type());
 	auto         ts = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* tsaddr = ts->Address();
-	llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
 	                                     { tsaddr->getType(), storage->getType() }, "__Time");
 	builder.CreateCall(f, { tsaddr, storage });
-	llvm::Value* addr = builder.CreateGEP(charTy, storage, MakeIntegerConstant(0), "addr");
 
-	return addr;
-    }
-
-    FunctionDate::FunctionDate(const std::string& fn, ArgList& a) : FunctionBase(fn, a)
-    {
-	arrayType = new Types::ArrayDecl(
-	    Types::Get<Types::CharDecl>(),
-	    { new Types::RangeDecl(new Types::Range(1, 11), Types::Get<Types::IntegerDecl>()) });
+	return storage;
     }
 
     ErrorType FunctionDate::Semantics()
@@ -1690,17 +1666,15 @@ namespace Builtin
 
     llvm::Value* FunctionDate::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* storage = CreateTempAlloca(arrayType);
+	llvm::Value* storage = CreateTempAlloca(Type());
 	auto         ts = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* tsaddr = ts->Address();
-	llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
 	                                     { tsaddr->getType(), storage->getType() }, "__Date");
 	builder.CreateCall(f, { tsaddr, storage });
-	llvm::Value* addr = builder.CreateGEP(charTy, storage, MakeIntegerConstant(0), "addr");
 
-	return addr;
+	return storage;
     }
 
     ErrorType FunctionBind::Semantics()
diff --git a/runtime/gettimestamp.c b/runtime/gettimestamp.c
index df547f0..14347af 100644
--- a/runtime/gettimestamp.c
+++ b/runtime/gettimestamp.c
@@ -18,14 +18,12 @@ void __gettimestamp(struct TimeStamp* ts)
     ts->MicroSecond = 0;
 }
 
-// Length: 8+nul = 9
-void __Time(struct TimeStamp* ts, char* dest)
+void __Time(struct TimeStamp* ts, String* dest)
 {
-    sprintf(dest, "%02d:%02d:%02d", ts->Hour, ts->Minute, ts->Second);
+    dest->len = snprintf((char*)dest->str, MaxStringLen, "%02d:%02d:%02d", ts->Hour, ts->Minute, ts->Second);
 }
 
-// Lenght: 10+nul = 11
-void __Date(struct TimeStamp* ts, char* dest)
+void __Date(struct TimeStamp* ts, String* dest)
 {
-    sprintf(dest, "%04d-%02d-%02d", ts->Year, ts->Month, ts->Day);
+    dest->len = snprintf((char*)dest->str, MaxStringLen, "%04d-%02d-%02d", ts->Year, ts->Month, ts->Day);
 }
-- 
2.43.0


From 22dfa1b89773c5955a51fb4c429c444bc5b5eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 29/35] fix: expressions in set constructors are checked, and
 their use of outer variables seen

---
 expr.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr.h b/expr.h
index 397e57e..9af994a 100644
--- a/expr.h
+++ b/expr.h
@@ -246,6 +246,14 @@ public:
     const std::vector<ExprAST*>& Values() const { return values; }
     llvm::Value*    MakeConstantSet();
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
+    void            accept(ASTVisitor& v) override
+    {
+	for (auto i : values)
+	{
+	    i->accept(v);
+	}
+	v.visit(this);
+    }
 
 private:
     std::vector<ExprAST*> values;
-- 
2.43.0


From ac0750e1fc3b7123899658ff253da6efb40c2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 30/35] fix: a temporary string has room for its length and
 terminator

---
 expr.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 74125d8..3a0c398 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -337,7 +337,7 @@ static llvm::Value* TempStringFromCharArray(llvm::Value* dest, AddressableAST* r
 	llvm::Value* src = builder.CreateGEP(charTy, v, { MakeIntegerConstant(0) }, "src");
 	llvm::Align  destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
 	llvm::Align  srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size);
     };
 
     return FillTempString(dest, rhs->Address(), size, func);
@@ -802,18 +802,29 @@ llvm::Value* BinaryExprAST::CallSetFunc(const std::string& name, Types::TypeDecl
     return builder.CreateCall(f, { lV, rV, setWords }, "calltmp");
 }
 
+// The temporary has to have room for the length and the terminator too, which an array of
+// the characters does not have.
+static llvm::Value* CreateTempString(Types::TypeDecl* ty, size_t size)
+{
+    if (!llvm::isa<Types::StringDecl>(ty))
+    {
+	ty = new Types::StringDecl(std::max<size_t>(size, 1));
+    }
+    return CreateTempAlloca(ty);
+}
+
 llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 {
     TRACE();
     if (llvm::isa<Types::CharDecl>(e->Type()))
     {
-	llvm::Value* v = CreateTempAlloca(Types::Get<Types::StringDecl>(1));
+	llvm::Value* v = CreateTempString(e->Type(), 1);
 	TempStringFromChar(v, e);
 	return v;
     }
     if (auto se = llvm::dyn_cast<StringExprAST>(e))
     {
-	llvm::Value* v = CreateTempAlloca(ty);
+	llvm::Value* v = CreateTempString(ty, se->Str().size());
 	TempStringFromStringExpr(v, se);
 	return v;
     }
@@ -831,7 +842,7 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 
 	ICE_IF(r.size() != 1, "Expect 1D array here");
 
-	llvm::Value* v = CreateTempAlloca(ty);
+	llvm::Value* v = CreateTempString(ty, r[0]->RangeSize());
 	TempStringFromCharArray(v, ea, r[0]->RangeSize());
 	return v;
     }
-- 
2.43.0


From efa0edb0865586463309b2d8c5b27c47953efe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 31/35] fix: diagnostics do not depend on where things are in
 memory

With -g, types without debug information are dumped to standard error;
the dump showed addresses of the compiler's own objects.
---
 expr.cpp  | 2 +-
 types.cpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 3a0c398..9ed1689 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -244,7 +244,7 @@ llvm::Value* MakeAddressable(ExprAST* e)
 
 void ExprAST::dump() const
 {
-    std::cerr << "Node=" << reinterpret_cast<const void*>(this) << ": ";
+    std::cerr << "Node: ";
     DoDump();
     std::cerr << std::endl;
 }
diff --git a/types.cpp b/types.cpp
index 0f7b2e3..dfe1d5a 100644
--- a/types.cpp
+++ b/types.cpp
@@ -230,7 +230,7 @@ namespace Types
 	std::cerr << "Pointer to: " << name;
 	if (baseType)
 	{
-	    std::cerr << " type " << baseType;
+	    std::cerr << " type " << baseType->Name();
 	}
 	else
 	{
@@ -577,7 +577,8 @@ namespace Types
 
     void FunctionDecl::DoDump() const
     {
-	std::cerr << "Function " << baseType;
+	std::cerr << "Function ";
+	baseType->DoDump();
     }
 
     void FieldDecl::DoDump() const
-- 
2.43.0


From 1b00eeee1722fe67f8e9d723c03ad423e56af3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 32/35] fix: give nested routines all the outer variables that
 the routines they call need

BuildClosures looked only one call away, and told variables apart by name
alone: a routine that reaches an outer variable through two calls, or that
has a variable of the same name, got invalid or wrong code.
---
 callgraph.cpp | 154 ++++++++++++++++++++++++++++++++++++--------------
 expr.cpp      |   4 ++
 expr.h        |   3 +
 3 files changed, 120 insertions(+), 41 deletions(-)

diff --git a/callgraph.cpp b/callgraph.cpp
index b3dae00..ec8c78e 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -132,11 +132,27 @@ public:
     std::map<const FunctionAST*, CallSet> callMap;
 };
 
+static std::string Key(std::string name)
+{
+    Stack<VarDef>::LowerIfNeeded(name);
+    return name;
+}
+
 class CollectUses : public ASTVisitor
 {
 public:
+    CollectUses(const FunctionAST* f) : function(f) {}
     void visit(ExprAST* a) override
     {
+	// What is used in nested functions, that are visited last, belongs to those.
+	if (auto f = llvm::dyn_cast<FunctionAST>(a); f && f != function)
+	{
+	    nested = true;
+	}
+	if (nested)
+	{
+	    return;
+	}
 	if (auto v = llvm::dyn_cast<VariableExprAST>(a))
 	{
 	    if (auto tc = llvm::dyn_cast<TypeCastAST>(v))
@@ -151,21 +167,28 @@ public:
 		}
 	    }
 	    ICE_IF(v->Name().empty(), "Expect a name");
-	    uses.insert(v->Name());
+	    uses.insert(Key(v->Name()));
 	}
+	// A function that is passed as an argument counts as called.
+	const ExprAST* e = a;
 	if (auto c = llvm::dyn_cast<CallExprAST>(a))
 	{
-	    if (auto fe = llvm::dyn_cast<FunctionExprAST>(c->Callee()))
+	    e = c->Callee();
+	}
+	if (auto fe = llvm::dyn_cast<FunctionExprAST>(e))
+	{
+	    if (auto fn = fe->Proto()->Function())
 	    {
-		if (auto fn = fe->Proto()->Function())
-		{
-		    calls.insert(fn);
-		}
+		calls.insert(fn);
 	    }
 	}
     }
     CallSet calls;
     VarSet  uses;
+
+private:
+    const FunctionAST* function;
+    bool               nested = false;
 };
 
 void CallGraphClosureCollector::AddVarDecls(const std::vector<VarDef>& vars, FunctionAST* f)
@@ -174,13 +197,13 @@ void CallGraphClosureCollector::AddVarDecls(const std::vector<VarDef>& vars, Fun
     for (auto d : vars)
     {
 	ICE_IF(d.Name().empty(), "Variables should have a name");
-	dm.insert(std::pair<std::string, VarDef>(d.Name(), d));
+	dm.insert(std::pair<std::string, VarDef>(Key(d.Name()), d));
     }
 }
 
 void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
 {
-    CollectUses collector;
+    CollectUses collector(f);
     f->accept(collector);
     if (!llvm::isa<Types::VoidDecl>(f->Proto()->Type()))
     {
@@ -191,20 +214,37 @@ void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
     callMap[f] = collector.calls;
 }
 
-void RemoveFromUses(VarSet& uses, const VarMap& decls)
+// A variable, and the function that declares it.
+using OwnedVar = std::pair<const FunctionAST*, std::string>;
+using OwnedVarSet = std::set<OwnedVar>;
+
+static int Level(const FunctionAST* f)
 {
-    for (auto d : decls)
+    int level = 0;
+    while ((f = f->Parent()))
     {
-	uses.erase(d.second.Name());
+	level++;
     }
+    return level;
 }
 
-void AddToUses(VarSet& uses, VarSet& more)
+// Is it declared again, by some function inside the one that owns it?
+static bool IsHidden(const CallGraphClosureCollector& v, const OwnedVar& var)
 {
-    for (auto v : more)
+    for (const auto& decl : v.declMap)
     {
-	uses.insert(v);
+	if (decl.second.find(var.second) != decl.second.end())
+	{
+	    for (const FunctionAST* f = decl.first ? decl.first->Parent() : 0; f; f = f->Parent())
+	    {
+		if (f == var.first)
+		{
+		    return true;
+		}
+	    }
+	}
     }
+    return false;
 }
 
 void BuildClosures(ExprAST* ast)
@@ -213,43 +253,75 @@ void BuildClosures(ExprAST* ast)
     CallGraphClosureCollector v;
     CallGraph(ast, v);
 
-    for (auto usage : v.useMap)
+    // Find which variables of the functions around it each function uses itself.
+    std::map<const FunctionAST*, OwnedVarSet> needs;
+    for (const auto& usage : v.useMap)
     {
-	VarSet       uses = usage.second;
-	FunctionAST* func = const_cast<FunctionAST*>(usage.first);
-
-	// Remove local declarations.
-	RemoveFromUses(uses, v.declMap[func]);
-
-	// Add uses from subfunctions.
-	for (auto sub : func->SubFunctions())
+	for (const auto& use : usage.second)
 	{
-	    VarSet use = v.useMap[sub];
-	    RemoveFromUses(use, v.declMap[sub]);
-	    AddToUses(uses, use);
+	    for (const FunctionAST* f = usage.first; f; f = f->Parent())
+	    {
+		if (v.declMap[f].find(use) != v.declMap[f].end())
+		{
+		    if (f != usage.first)
+		    {
+			needs[usage.first].insert({ f, use });
+		    }
+		    break;
+		}
+	    }
 	}
+    }
 
-	for (auto call : v.callMap[func])
+    // Then add what the functions inside it and those that it calls need, until there is nothing more to add.
+    bool changed;
+    do
+    {
+	changed = false;
+	for (const auto& usage : v.useMap)
 	{
-	    VarSet callerUse = v.useMap[call];
-	    RemoveFromUses(callerUse, v.declMap[call]);
-	    AddToUses(uses, callerUse);
+	    CallSet inner = v.callMap[usage.first];
+	    for (auto sub : usage.first->SubFunctions())
+	    {
+		inner.insert(sub);
+	    }
+	    for (auto fn : inner)
+	    {
+		for (const auto& var : OwnedVarSet(needs[fn]))
+		{
+		    if (var.first != usage.first)
+		    {
+			changed |= needs[usage.first].insert(var).second;
+		    }
+		}
+	    }
 	}
+    } while (changed);
 
-	// Now search up the stack until to see if
-	// it's local "above" us.
+    for (const auto& usage : v.useMap)
+    {
+	FunctionAST*     func = const_cast<FunctionAST*>(usage.first);
 	std::set<VarDef> used;
-	for (auto use : uses)
+	for (const auto& var : needs[func])
 	{
-	    for (const FunctionAST* f = func->Parent(); f; f = f->Parent())
+	    const VarDef& def = v.declMap[var.first].find(var.second)->second;
+	    if (!IsHidden(v, var))
 	    {
-		const VarMap& dm = v.declMap[f];
-		auto          v = dm.find(use);
-		if (v != dm.end())
-		{
-		    used.insert(v->second);
-		    break;
-		}
+		used.insert(def);
+		continue;
+	    }
+	    // The name alone doesn't tell which it is.
+	    std::string name = def.Name() + "$" + std::to_string(Level(var.first));
+	    used.insert(VarDef(name, def.Type(), def.GetFlags()));
+	    const_cast<FunctionAST*>(var.first)->AddAlias(name, def.Name());
+	    const FunctionAST* f = func;
+	    while (v.declMap[f].find(var.second) == v.declMap[f].end())
+	    {
+		f = f->Parent();
+	    }
+	    if (f == var.first)
+	    {
+		func->AddAlias(def.Name(), name);
 	    }
 	}
 
diff --git a/expr.cpp b/expr.cpp
index 9ed1689..b751d90 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2161,6 +2161,10 @@ llvm::Function* FunctionAST::CodeGen(const std::string& namePrefix)
     {
 	d->CodeGen();
     }
+    for (const auto& [alias, variable] : aliases)
+    {
+	variables.Add(alias, variables.Find(variable));
+    }
 
     llvm::BasicBlock::iterator ip = builder.GetInsertPoint();
 
diff --git a/expr.h b/expr.h
index 9af994a..1e74417 100644
--- a/expr.h
+++ b/expr.h
@@ -12,6 +12,7 @@
 #include <llvm/IR/Module.h>
 #include <llvm/IR/Value.h>
 #include <llvm/Support/Casting.h>
+#include <map>
 #include <set>
 #include <string>
 #include <vector>
@@ -598,6 +599,7 @@ public:
     const std::vector<FunctionAST*> SubFunctions() const { return subFunctions; }
     void                    SetUsedVars(const std::set<VarDef>& usedvars) { usedVariables = usedvars; }
     const std::set<VarDef>& UsedVars() { return usedVariables; }
+    void AddAlias(const std::string& alias, const std::string& name) { aliases[alias] = name; }
     Types::TypeDecl*        ClosureType();
     const std::string       ClosureName() { return "$$CLOSURE"; };
     static bool             classof(const ExprAST* e) { return e->getKind() == EK_Function; }
@@ -610,6 +612,7 @@ private:
     BlockAST*                 body;
     std::vector<FunctionAST*> subFunctions;
     std::set<VarDef>          usedVariables;
+    std::map<std::string, std::string> aliases;
     FunctionAST*              parent;
     Types::TypeDecl*          closureType;
     Location                  endLoc;
-- 
2.43.0


From 2dcabb0fba3746dd8ad67288a15fb032835c8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:26 +0000
Subject: [PATCH 33/35] fix: halt takes the status from any ordinal expression

A longint or boolean was passed as it is to a function that takes an integer,
so that the compilation was aborted.
---
 builtin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builtin.cpp b/builtin.cpp
index ba575c2..41798f5 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -963,7 +963,8 @@ namespace Builtin
 	llvm::Value* v = MakeIntegerConstant(0);
 	if (args.size() == 1)
 	{
-	    v = args[0]->CodeGen();
+	    bool isSigned = !IsUnsigned(args[0]->Type()) && !llvm::isa<Types::BoolDecl>(args[0]->Type());
+	    v = builder.CreateIntCast(args[0]->CodeGen(), v->getType(), isSigned, "status");
 	}
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
-- 
2.43.0


From 432a2d7529e306a1e18d204ce7892e2cddbccdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:26 +0000
Subject: [PATCH 34/35] fix: panic takes its message from any string

A string variable or expression, a char or an array of char was passed by value to a
function that expects the address of characters, so that the program crashed.
---
 builtin.cpp     |  8 ++++++--
 runtime/panic.c | 10 ++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 41798f5..c1604b7 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1384,9 +1384,13 @@ namespace Builtin
 
     llvm::Value* FunctionPanic::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value*         message = args[0]->CodeGen();
+	// A literal is passed as it is, anything else as a string.
+	bool         literal = llvm::isa<StringExprAST>(args[0]) && !llvm::isa<Types::CharDecl>(args[0]->Type());
+	llvm::Value* message = literal ? args[0]->CodeGen()
+	                               : MakeStringFromExpr(args[0], Types::Get<Types::StringDecl>(255));
 	llvm::Type*          ty = message->getType();
-	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty }, "__Panic");
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty },
+	                                     literal ? "__Panic" : "__Panic_str");
 
 	return builder.CreateCall(f, { message });
     }
diff --git a/runtime/panic.c b/runtime/panic.c
index ac0079b..cf49f70 100644
--- a/runtime/panic.c
+++ b/runtime/panic.c
@@ -1,8 +1,18 @@
+#include "runtime.h"
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 void __Panic(const char* msg)
 {
     fprintf(stderr, "%s\n", msg);
     exit(11);
 }
+
+void __Panic_str(String* msg)
+{
+    char buffer[MaxStringLen + 1];
+    memcpy(buffer, msg->str, msg->len);
+    buffer[msg->len] = 0;
+    __Panic(buffer);
+}
-- 
2.43.0


From 24a4907c27e1d2b79374d016a8f06ce66c413a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:48 +0000
Subject: [PATCH 35/35] fix: seekread reports what could not be written before

A seek while the file was open for update made it a file that is only
read, and closing one of those does not ask whether a write failed.
---
 runtime/seek.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/seek.c b/runtime/seek.c
index 5288366..fc3afcc 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -46,6 +46,11 @@ static void Seek(File* f, int64_t n, int mode, const char* op)
     {
 	FileError(op);
     }
+    // Once the file is only read, nothing else tells of what could not be written.
+    if ((fe->mode & FileWrite) && ferror(fe->file))
+    {
+	FileError(op);
+    }
     fe->mode = mode;
     fe->readAhead = 0;
     if (mode & FileRead)
-- 
2.43.0

