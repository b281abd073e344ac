From 9a70dcc4d05c1d15df47561e23f584a86abddfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 001/119] fix: hyper_mat_copy copies a cube instead of
 returning NULL

The NULL test was inverted: every copy of a real cube returned NULL and a NULL
cube was dereferenced. Conversions of a cube that already has the requested
interleave go through this copy.
---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ad50eed..ca93da3 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -393,7 +393,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
  **/
 hyper_mat hyper_mat_copy(hyper_mat mat)
 {
-	if(mat!=NULL)
+	if(mat==NULL)
 		return NULL;
 
 	int samples   = mat->samples;
-- 
2.43.0


From 5c809f40a9cb7b282c567d70f6748d87c563db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 002/119] fix: delete_simple_mat frees only blocks that were
 allocated

Whether the data lies in the header's own block was guessed from the distance
of the two addresses. The aligned data can start up to 95 bytes after the
header, so for some heap addresses the middle of the block was passed to free.
Compare with the address create_simple_mat computes instead; the block always
has room for it, so user data can never be there.
---
 modules/core/src/c_src/simplemat.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 869b43b..1e2d35b 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -29,13 +29,13 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 
 	simple_mat mat;
 
-	int memneeded = sizeof(SIMPLE_MAT);
+	int memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
 	int elem_size = get_elemsize(data_type);
 
 	if (data == NULL)
 	{
 		int data_size = rows * cols * elem_size * channels; 
-		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
+		memneeded += data_size;
 	}
 
 	mat = (simple_mat)malloc(sizeof(char) * memneeded);
@@ -494,7 +494,10 @@ void delete_simple_mat(simple_mat mat)
 	if(mat == NULL)
 		return;
 
-	if((uintptr_t)mat + ALLOC_BYTE_ALIGNMENT >= (uintptr_t)mat->data)
+	uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
+	BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
+
+	if(address == (uintptr_t)mat->data)
 	{
 		free(mat);
 		mat = NULL;	
-- 
2.43.0


From 741c91ce2fd968e22446089a95b30b481715f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 003/119] fix: create_simple_mat clears all channels of a new
 image

Only the first rows*cols elements were cleared; the rest of a multi-channel
image held whatever the heap contained.
---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 1e2d35b..d6a851c 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -45,7 +45,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	{
 		uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
 		BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
-		memset((void*)address, 0, rows * cols * elem_size);
+		memset((void*)address, 0, rows * cols * elem_size * channels);
 		mat -> data = (void*)address;
 	}
 	else
-- 
2.43.0


From 56f6974c7ff33b37e5307f3f683bb90b6c3cb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 004/119] fix: smread reads all channels of the image

The buffer and the read covered rows*cols elements while the returned image
has rows*cols*channels, so using a 3-channel image read past the buffer.
---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index d6a851c..f4f7e05 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -75,7 +75,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 	hypercv_assert(image_fp != NULL, "can not open files");
 
 	int elem_size = get_elemsize(data_type);
-	int data_size = rows * cols;
+	int data_size = rows * cols * channels;
 	void* data = (void *)malloc(data_size * elem_size);
 
 	fread(data, elem_size, data_size, image_fp);
-- 
2.43.0


From bc2030a0588481db881fbdfa5f90a41b4ae20f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 005/119] fix: simple_mat_grayscale_statistics no longer
 rejects every call

It compared the size of the pointer parameter with 256, which is never true,
so this function and simple_mat_entropy always ended the program.
---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index f4f7e05..e078a2b 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -376,7 +376,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 {
 	hypercv_assert(mat                  != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat-> data_type      == 1,    "only use in unsigned char image");
-	hypercv_assert(sizeof(gray_statist) == 256,  "gray array error");
+	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
 	int cols     = mat->cols;
-- 
2.43.0


From 35c12be11e63d71c2defd9ceb4d1a80921e18725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 006/119] fix: weighted gray conversion uses weights that sum
 to one

The green weight 0.587 was mistyped as 0.578, so white became 252.
---
 modules/process/src/c_src/colortransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 0ed2819..5b5b139 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -124,7 +124,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 			}
 			else if (method == 2)
 			{
-				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.578+rgb_data[i*cols*3+j*3+2]*0.114;
+				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.587+rgb_data[i*cols*3+j*3+2]*0.114;
 				gray_data[i*cols+j] = (int)tmp;
 			}
 			else
-- 
2.43.0


From a2d042286bb59f0e0f1af3fb42464e7610eba740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 007/119] fix: mean and variance read signed images as signed

Data types 2 and 3 are signed but were read as unsigned, so any negative
element gave a mean near 2^15 or 2^31. Sums are kept in double, because a
float sum stops growing on large images.
---
 modules/core/src/c_src/simplemat.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index e078a2b..dcacdbc 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -280,7 +280,7 @@ float simple_mat_mean(simple_mat mat)
 	int rows = mat -> rows;
 	int cols = mat -> cols;
 
-	float res = 0.0;
+	double res = 0.0;
 
 	switch (mat -> data_type)
 	{
@@ -292,6 +292,12 @@ float simple_mat_mean(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*) mat->data;
@@ -301,7 +307,7 @@ float simple_mat_mean(simple_mat mat)
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*) mat->data;
+				int* data = (int*) mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
@@ -329,7 +335,7 @@ float simple_mat_variance(simple_mat mat)
 
 	int rows   = mat->rows;
 	int cols   = mat->cols;
-	float res  = 0.0;
+	double res = 0.0;
 	float mean = simple_mat_mean(mat);
 	
 	switch (mat -> data_type)
@@ -342,6 +348,12 @@ float simple_mat_variance(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*)mat->data;
+				for(int i=0;i<rows*cols;i++)
+					res += pow(mean-data[i],2);
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*)mat->data;
@@ -351,7 +363,7 @@ float simple_mat_variance(simple_mat mat)
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*)mat->data;
+				int* data = (int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
-- 
2.43.0


From 3c369f15716bc1af3e346f4315ee85e0809c58fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 008/119] fix: smwrite_bmp writes every row as BGR and leaves
 its input alone

Rows were flipped and channel-swapped in the caller's image, so saving an RGB
image corrupted it. The middle row of an image of odd height was never
swapped, so the file showed it with red and blue exchanged. The row padding
was uninitialised heap memory.
---
 modules/core/src/c_src/simplemat.c | 33 +++++++++---------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index dcacdbc..92ae3f5 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -235,37 +235,24 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 
 	fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp);
 
-	for(int i=0; i<height/2; i++)
+	unsigned char* line = (unsigned char*)calloc(lineByte, 1);
+	hypercv_assert(line != NULL, "failed to allocate memory");
+
+	for(int i=height-1; i>=0; i--)
 	{
 		for(int j=0; j<width; j++)
 		{
 			for(int k=0; k<channels; k++)
-			{
-				int tempbuf = imgBuf[i*width*channels + j*channels + k];
-				imgBuf[i*width*channels + j*channels + k] = imgBuf[(height-i-1)*width*channels + j*channels + 2-k];
-				imgBuf[(height-i-1)*width*channels + j*channels + 2-k] = tempbuf;
-			}
-
+				line[j*channels + k] = imgBuf[i*width*channels + j*channels + 2-k];
 		}
+		fwrite(line, lineByte, 1, fp);
 	}
 
-	if(lineByte > width*biBitCount/8)
-	{
-		unsigned char* tmp = (unsigned char*)malloc(height*lineByte);
-		unsigned char* data = tmp ;
-		for(int i=0; i<height; i++)
-		{
-			memcpy(data, imgBuf, width*3);
-			imgBuf += width*3;
-			data += lineByte;
-		}
-		fwrite(tmp, height*lineByte, 1, fp);
-		free(tmp);
-	}
-	else 
-		fwrite(imgBuf, height*lineByte, 1, fp);
-
+	free(line);
 	fclose(fp);
+
+	if(mat != src_mat)
+		delete_simple_mat(mat);
 }
 
 /**
-- 
2.43.0


From 9165b594ec883527d7e2b3a410003052e6414814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 009/119] fix: smread_bmp rejects bitmaps it cannot decode

All the code after the header assumes three bytes a pixel, bottom row first.
An 8 or 16 bit file was read past the end of its buffer, and a top-down file
has a negative height.
---
 modules/core/src/c_src/simplemat.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 92ae3f5..e6adc5f 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -131,14 +131,9 @@ simple_mat smread_bmp(const char *bmpName)
 	int bmpWidth   = head.biWidth;
 	int bmpHeight  = head.biHeight;
 	int biBitCount = head.biBitCount;
+	hypercv_assert(biBitCount == 24 && bmpWidth > 0 && bmpHeight > 0, "only 24 bit bottom-up BMP image can be read");
     int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
 	
-	if (biBitCount == 8)
-	{
-		RGBQUAD *pColorTable = (RGBQUAD *)malloc(sizeof(RGBQUAD) * 1024);
-		fread(pColorTable, sizeof(RGBQUAD), 256, fp);
-	}
-	
 	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
 	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
 	fclose(fp);
-- 
2.43.0


From 479b09a7ae56fe84710c447a12de89d160082a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 010/119] fix: smread_bmp swaps the channels of the middle row
 too

With an odd height the middle row kept the BGR order of the file, so a bitmap
written by another program came back with red and blue exchanged there.
---
 modules/core/src/c_src/simplemat.c | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index e6adc5f..38f23ca 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -138,31 +138,15 @@ simple_mat smread_bmp(const char *bmpName)
 	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
 	fclose(fp);
 
-	for(int i=0;i<bmpHeight/2;i++)
-	{
-		for(int j=0;j<bmpWidth;j++)
-		{
-			for(int k=0;k<channels;k++)
-			{
-				int tmp = pBmpBuf[i*lineByte + j*channels + k];
-				pBmpBuf[i*lineByte + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
-				pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k] = tmp;
-			}
-		}
-	}
-	
 	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
 	unsigned char* res_data = (unsigned char*)res->data;
 
-	if(lineByte == bmpWidth * biBitCount / 8)
-		memcpy(res_data, pBmpBuf, lineByte*bmpHeight);
-	else
+	for(int i=0;i<bmpHeight;i++)
 	{
-		for(int i=0; i<bmpHeight; i++)
+		for(int j=0;j<bmpWidth;j++)
 		{
-			unsigned char* pres = res_data + i*bmpWidth*channels;
-			unsigned char* pbmp = pBmpBuf + i*lineByte;
-			memcpy(pres, pbmp, bmpWidth*channels);
+			for(int k=0;k<channels;k++)
+				res_data[i*bmpWidth*channels + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
 		}
 	}
 
-- 
2.43.0


From 21545251151a19bfb9cb95bd5fb7b9cb1c4ceb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 011/119] fix: smread_bmp starts at the pixel data offset of
 the file

Bitmaps with a longer info header than the classic 40 bytes had the rest of
their header decoded as pixels.
---
 modules/core/src/c_src/simplemat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 38f23ca..280e6b2 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -123,7 +123,8 @@ simple_mat smread_bmp(const char *bmpName)
 	FILE *fp = fopen(bmpName, "rb");
 	hypercv_assert(fp!=NULL, "BMP IMAGE NOT EXIST");
 
-	fseek(fp, sizeof(BmpFileHeader), SEEK_SET);
+	BmpFileHeader fileHead;
+	fread(&fileHead, sizeof(BmpFileHeader), 1, fp);
 	BmpInfoHeader head;
 	fread(&head, sizeof(BmpInfoHeader), 1, fp);
  
@@ -134,6 +135,7 @@ simple_mat smread_bmp(const char *bmpName)
 	hypercv_assert(biBitCount == 24 && bmpWidth > 0 && bmpHeight > 0, "only 24 bit bottom-up BMP image can be read");
     int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
 	
+	fseek(fp, fileHead.bfOffBits, SEEK_SET);
 	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
 	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
 	fclose(fp);
-- 
2.43.0


From 6e0c22ab297d129eec1bf41d8619f7796ba68a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 012/119] fix: reading the interleave of a header stays inside
 its buffer

The four characters after '=' went into a three byte buffer: without a blank
after '=' the line break was stored behind it, and with a tab the first
character of the layout was lost. The temporary copies of data and wavelength
are released as well.
---
 modules/core/src/c_src/hypermat.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ca93da3..e8bc2de 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -86,8 +86,6 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 	char line[MAXLINE];
 	char item[MAXLINE];
 
-	char it[4];
-
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
@@ -116,12 +114,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(item, "interleave") == 1)
 		{
-			sscanf(line, "%*[^=]=%c%c%c%c", &it[0],&it[1],&it[2],&it[3]);
-			for(int i=0;i<4;i++)
-			{
-				if(it[i]!=' ')
-					*interleave++ = it[i];
-			}
+			sscanf(line, "%*[^=]= %3s", interleave);
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
@@ -228,7 +221,7 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(hdr_path != NULL, "image path or hdr path can not be NULL");
 
 	int samples, lines, bands, data_type;
-	char* interleave = (char*)malloc(3*sizeof(char));
+	char interleave[4] = "";
 	float* wavelength = NULL;
 
 	FILE* image_fp = NULL;
@@ -258,7 +251,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	
 	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
 
-	free(interleave);
+	free(data);
+	free(wavelength);
 	
 	return mat;
 }
-- 
2.43.0


From 139b1477e0977b9c032820760a0d10db9f0d90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 013/119] fix: 'data ignore value' in a header no longer
 replaces the data type

Every key that starts with 'data' was taken for the data type.
---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index e8bc2de..ea46e85 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -107,7 +107,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			sscanf(line, "%*[^=]=%d", &bandtemp);
 			*bands = bandtemp;
 		}
-		else if (cmpstr(item, "data") == 1)
+		else if (cmpstr(item, "data type") == 1)
 		{
 			sscanf(line, "%*[^=]=%d", &datatypetemp);
 			*data_type = datatypetemp;
-- 
2.43.0


From 94d6d70c7d99dd7bec39a5f5d2c0a7f2d79496db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:45 +0000
Subject: [PATCH 014/119] fix: the wavelength list of a header is read whatever
 its layout

The list was copied, unterminated, into 20 bytes a band and every number into
20 more, so longer numbers or blanks overflowed both; numbers on the line of
the opening brace were lost, and a list before the 'bands' key had a buffer of
no bytes at all.
---
 modules/core/src/c_src/hypermat.c | 65 +++++++++++++++----------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ea46e85..f672a00 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -10,10 +10,6 @@
 #define MAXLINE 10000 //each line no more than 10000 words
 #endif
 
-#ifndef MAXWAVECHAR
-#define MAXWAVECHAR 20
-#endif
-
 //*************************************************************
 //                       private                              * 
 //*************************************************************
@@ -35,30 +31,26 @@ int cmpstr(char temp1[],char temp2[])
 }
 
 // private function purpose to read wavelength from hdr file
-// default wavelength charlength < 12
-static void read_wavelength(char* w, float* wavelength, int bands)
+// w holds the text between the braces, missing wavelengths are 0
+static void read_wavelength(const char* w, float* wavelength, int bands)
 {
-	char* tmp = (char*)malloc(MAXWAVECHAR*sizeof(char));
-	for(int i=0;i<MAXWAVECHAR;i++)
-		tmp[i]=' ';
-	int t = 0;
+	char* end = NULL;
 	int n = 0;
-	for (int i=0;i<strlen(w);i++)
+
+	while(*w != '\0' && *w != '}' && n < bands)
 	{
-		if(w[i]!=','&&w[i]!='}')
-			tmp[t++] = w[i];
+		double value = strtod(w, &end);
+		if(end == w)
+			w++;
 		else
 		{
-			wavelength[n++] = atof(tmp);
-			t=0;
-			for(int j=0;j<MAXWAVECHAR;j++)
-				tmp[j]=' ';
+			wavelength[n++] = value;
+			w = end;
 		}
-		if(w[i]=='}'||n==bands)
-			break;
 	}
-	free(tmp);
-	tmp=NULL;
+
+	while(n < bands)
+		wavelength[n++] = 0;
 }
 
 
@@ -88,6 +80,8 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
+	char* wave_text = NULL;
+
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
 	{   
 		sscanf(line, "%[^=]", item);
@@ -118,23 +112,28 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-			char* w = (char*)malloc(MAXWAVECHAR * bandtemp*sizeof(char));
-			char* t_w = w;
+			char* part = strchr(line, '{');
+			size_t len = 0;
 
-			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
+			while (part != NULL)
 			{
-				for (int i = 0; i < strlen(line); i++)
-				{
-					if (line[i] != '\n')
-						*t_w++ = line[i];
-				}
+				part += *part == '{';
+				wave_text = (char*)realloc(wave_text, len + strlen(part) + 1);
+				hypercv_assert(wave_text != NULL, "malloc fail");
+				strcpy(wave_text + len, part);
+				len += strlen(part);
+				part = strchr(part, '}') == NULL ? fgets(line, MAXLINE, hdr_fp) : NULL;
 			}
-			float* wave = (float*)malloc((bandtemp)*sizeof(float));
-			read_wavelength(w, wave, bandtemp);
-			*wavelength = wave;
-			free(w); w = NULL;
 		}
 	}
+
+	if(wave_text != NULL && bandtemp > 0)
+	{
+		*wavelength = (float*)malloc(bandtemp*sizeof(float));
+		hypercv_assert(*wavelength != NULL, "malloc fail");
+		read_wavelength(wave_text, *wavelength, bandtemp);
+	}
+	free(wave_text);
 }
 
 /**
-- 
2.43.0


From e138d5c0827c0c5223b4c19d84a82fa3d88d91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:06 +0000
Subject: [PATCH 015/119] fix: hmread_with_size returns zero wavelengths
 instead of heap garbage

A raw image has no wavelengths; an uninitialised buffer was copied in. The
buffers were also never released.
---
 modules/core/src/c_src/hypermat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index f672a00..549e0fd 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -287,9 +287,9 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
 
-	float* wavelength = (float*)malloc(bands*sizeof(float));
+	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, NULL);
 
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	free(data);
 
 	return mat;
 }
-- 
2.43.0


From bde103c7365186b417ddfb7e9c7053e6ee0f1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 016/119] fix: a header without size or data type is rejected

The variables were read uninitialised when a key was missing.
---
 modules/core/src/c_src/hypermat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 549e0fd..21365cb 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -219,7 +219,7 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(hdr_path != NULL, "image path or hdr path can not be NULL");
 
-	int samples, lines, bands, data_type;
+	int samples = 0, lines = 0, bands = 0, data_type = 0;
 	char interleave[4] = "";
 	float* wavelength = NULL;
 
@@ -237,6 +237,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	else
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 	
+	hypercv_assert(samples > 0 && lines > 0 && bands > 0 && get_elemsize(data_type) > 0, "hdr file is incomplete");
+
 	unsigned int elem_size = get_elemsize(data_type);
 	long int data_size = samples * lines * bands;
 
-- 
2.43.0


From 1cbf4c9125a19a4d5413d462a02cfaa57f845c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 017/119] fix: elements a short image file does not hold are
 zero

They were uninitialised heap memory.
---
 modules/core/src/c_src/hypermat.c  | 4 ++--
 modules/core/src/c_src/simplemat.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 21365cb..425c06f 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -242,7 +242,7 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	unsigned int elem_size = get_elemsize(data_type);
 	long int data_size = samples * lines * bands;
 
-	void* data = (void *)malloc(data_size * elem_size);
+	void* data = (void *)calloc(data_size, elem_size);
 	hypercv_assert(data != NULL, "malloc fail");
 	
 	fread(data, elem_size, data_size, image_fp);
@@ -284,7 +284,7 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	int elem_size = get_elemsize(data_type);
 	long int data_size = samples * lines * bands;
 
-	void* data = (void *)malloc(data_size * elem_size);
+	void* data = (void *)calloc(data_size, elem_size);
 
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 280e6b2..ac50113 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -76,7 +76,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 
 	int elem_size = get_elemsize(data_type);
 	int data_size = rows * cols * channels;
-	void* data = (void *)malloc(data_size * elem_size);
+	void* data = (void *)calloc(data_size, elem_size);
 
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
-- 
2.43.0


From 300f014b8673163ca6637adc3db07f61997590ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 018/119] fix: morphology uses the column count as the row
 stride

Pixels were addressed as row*rows+col, so every image that is not square was
processed at wrong positions and past its end.
---
 modules/process/src/c_src/morphology.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index c533ba3..0a96363 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -47,7 +47,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]!=0)
+			if(src[i*cols+j]!=0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -55,18 +55,18 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 0;
+					dst[i*cols+j] = 0;
 			}
 			else
-				dst[i*rows+j] = 0;
+				dst[i*cols+j] = 0;
 		}
 	}
 }
@@ -111,7 +111,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]==0)
+			if(src[i*cols+j]==0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -119,18 +119,18 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 1;
+					dst[i*cols+j] = 1;
 			}
 			else
-				dst[i*rows+j] = src[i*rows+j];
+				dst[i*cols+j] = src[i*cols+j];
 		}
 	}
 }
-- 
2.43.0


From 1226ff5b8b28b1d09660667b508a02093d87bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 019/119] fix: dilation sets background next to foreground

It looked for a zero under the structuring element, so background far from
any object was set and background next to an object was kept.
---
 modules/process/src/c_src/morphology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 0a96363..a7095f8 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -119,7 +119,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]!=0)
 								flag = 1;
 						}
 					}
-- 
2.43.0


From bf83cee8d79b2f2a69d2eb5554faed5eb92a1157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 020/119] fix: open and close apply the second step to the
 result of the first

Both steps read the source, so open was a plain dilation and close a plain
erosion.
---
 modules/process/src/c_src/morphology.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index a7095f8..20e7ed4 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -157,11 +157,15 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat tmp = simple_mat_copy(src);
+
 	for(int i=0;i<iterations;i++)
 	{
-	    hypercv_corrosion(src,dst,kernel);
-		hypercv_expend(src,dst,kernel);
+	    hypercv_corrosion(i==0?src:dst,tmp,kernel);
+		hypercv_expend(tmp,dst,kernel);
 	}
+
+	delete_simple_mat(tmp);
 }
 
 /**
@@ -185,11 +189,15 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat tmp = simple_mat_copy(src);
+
 	for(int i=0;i<iterations;i++)
 	{
-		hypercv_expend(src,dst,kernel);
-	    hypercv_corrosion(src,dst,kernel);
+		hypercv_expend(i==0?src:dst,tmp,kernel);
+	    hypercv_corrosion(tmp,dst,kernel);
 	}
+
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From a1cf79d119f497fac99d19a9d92ac9a6c7a45b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 021/119] fix: otsuThreshold reads a gray image as one channel

It always took three bytes a pixel, so a gray image, the only kind
hypercv_threshold_otsu accepts, was read past its end.
---
 modules/process/src/c_src/threshold.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5323e6f..967d7ba 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -32,7 +32,11 @@ int otsuThreshold(simple_mat img)
 	{//计算直方图
 		for(int j=0;j<width;j++)
 		{
-			double temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			double temp;
+			if(channels == 1)
+				temp = data[i*step + j];
+			else
+				temp = data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
-- 
2.43.0


From ce1002cce6588ab306816cf2bf1b02a30829bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 022/119] fix: Otsu binarisation splits where otsuThreshold
 does

otsuThreshold counts the returned level to the lower class, but the level was
mapped to 255: an image of two levels came out all white.
---
 modules/process/src/c_src/threshold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 967d7ba..2bed2de 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -208,7 +208,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 
 	for(int i=0;i<rows*cols*channels;i++)
 	{
-		if(src_data[i]<thresh)
+		if(src_data[i]<=thresh)
 			dst_data[i] = 0;
 		else
 			dst_data[i] = 255;
-- 
2.43.0


From 33de5550242a9c3af5d423878c5dc402dff076be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 023/119] fix: median blur computes a median

It rejected every image, its swap exchanged copies, its gap loop never ended
and only the first row of the window was considered.
---
 modules/process/src/c_src/filter.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3ce9c5e..083c19a 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -11,19 +11,14 @@
 /////////////////////////////////////////////////////////////////////////
 //____________________private function________________________
 
-static void swap(unsigned char a,unsigned char b)
+static int compare_uchar(const void* a, const void* b)
 {
-	unsigned char c = a;
-	a = b;
-	b = c;
+	return *(const unsigned char*)a - *(const unsigned char*)b;
 }
 
 static unsigned char median_member(unsigned char* array,int size)
 {
-	for(int gap = size/2; gap++; gap/=2)
-		for(int i=gap; i<size; i++)
-			for(int j=i-gap; j>=0 && array[j]>array[j+gap]; j-=gap)
-				swap(array[j],array[j+gap]);
+	qsort(array, size, sizeof(unsigned char), compare_uchar);
 	return array[size/2]; 
 }
 
@@ -139,7 +134,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
  **/
 void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL,"input mat can not be NULL");
 	hypercv_assert(size%2==1,"size should be odd number");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -159,12 +154,14 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 				for(int m = -size/2;m<=size/2;m++)
 					for(int n = -size/2; n<=size/2;n++)
 						arr[(m+size/2)*size+n+size/2] = src_data[(i+m)*cols+j+n];
-				dst_data[i*cols+j] = median_member(arr,size); 
+				dst_data[i*cols+j] = median_member(arr,size*size); 
 			}
 			else 
 				dst_data[i*cols+j] = src_data[i*cols+j];
 		}
 	}
+
+	free(arr);
 }
 
 /**
-- 
2.43.0


From 837f0cd9008948f63185dd15df27dba5b3a059b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 024/119] fix: mean blur averages its whole window

It rejected every image, walked a diagonal instead of the window, and left out
the last row and column of an odd window; size 1 divided by zero.
---
 modules/process/src/c_src/filter.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 083c19a..56c9511 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -172,7 +172,8 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL,"input mat can not be NULL");
+	hypercv_assert(size>0,"size should be greater than 0");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -180,20 +181,19 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
 		    int sum=0,num=0;
-			for(int m = -size/2;m<size/2;m++)
+			for(int m = -(size/2);m<size-size/2;m++)
 			{
-				for(int n = -size/2; n<size/2;n++)
+				for(int n = -(size/2); n<size-size/2;n++)
 				{
-					if((i+m)>=0&&(i+m)<rows&&(j+m)>=0&&(j+m)<cols)
+					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
 					{
-						sum+= src_data[(i+m)*cols+j+m];
+						sum+= src_data[(i+m)*cols+j+n];
 						num++;	 
 					}
 
-- 
2.43.0


From 1a6e3220dc9feb45cb8be66e5a56e4b6c3266868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 025/119] fix: the integral image sums its first row and column

They held the pixels themselves, which made every other sum wrong as well.
---
 modules/process/src/c_src/filter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 56c9511..7b33fba 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -479,8 +479,12 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			if(i==0||j==0)
+			if(i==0&&j==0)
 				dst_data[i*cols+j] = src_data[i*cols+j];
+			else if(i==0)
+				dst_data[i*cols+j] = dst_data[i*cols+j-1] + src_data[i*cols+j];
+			else if(j==0)
+				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + src_data[i*cols+j];
 			else
 				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + dst_data[i*cols+j-1] + src_data[i*cols+j]-dst_data[(i-1)*cols+j-1];	
 		}
-- 
2.43.0


From df24c137a11348731552ae287af137340c0f274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 026/119] fix: filter2D checks its destination and starts from
 zero

The type check assigned instead of comparing, so a byte image was relabelled
as float and overrun, and results were added to what the destination held.
---
 modules/process/src/c_src/filter.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 7b33fba..7c97ce8 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -82,7 +82,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
-	hypercv_assert(dst->data_type = 4,"dst data_type == float");
+	hypercv_assert(dst->data_type == 4,"dst data_type == float");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -97,6 +97,9 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	{
 		for(int j=0;j<cols;j++)
 		{
+			for(int c=0; c<cn; c++)
+				dst_data[(i*cols+j)*cn+c] = 0;
+
 			for(int m=0; m<k_rows; m++)
 			{
 				if ((i+m-k_rows/2<0)||(i+m-k_rows/2>=rows))
-- 
2.43.0


From 159137874cd6d28d4e5d0f30db78089415f26775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 027/119] fix: QR decomposition projects on the columns of Q

The Gram-Schmidt coefficients left Q out, so Q was not orthogonal and Q*R was
not the input.
---
 modules/process/src/c_src/matrixprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8e8dc98..f41372b 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -237,9 +237,9 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		{
 			r[k*m+j] = 0;
 			for(int i1=0; i1<m;i1++)
-				r[k*m+j]+=col_a[i1];
+				r[k*m+j]+=col_a[i1]*q[i1*m+k];
 			for(int i2=0;i2<m;i2++)
-				col_q[i2] -= r[k*m+j];
+				col_q[i2] -= r[k*m+j]*q[i2*m+k];
 		}
 
 		float tmp = matrix_norm_float(col_q,m);
@@ -247,6 +247,9 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		for(int i = 0;i<m;i++)
 			q[i*m+j] = col_q[i]/tmp;
 	}
+
+	free(col_a);
+	free(col_q);
 }
 
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
-- 
2.43.0


From 3345298e24ceefc8d65f4143c3288de957938337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 028/119] fix: eigenvectors get the right first component

Normalising a row started at column 1, so the pivot of the first row was not
scaled with the rest and the first component came out divided by it.
---
 modules/process/src/c_src/matrixprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index f41372b..f0a20a8 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -269,7 +269,7 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		{
 			float coe = temp[i*n+i];
 			
-			for(int j=1;j<n;j++)
+			for(int j=i;j<n;j++)
 				temp[i*n+j]/=coe;
 
 			for (int i1 = i + 1; i1 < m; i1++)
-- 
2.43.0


From c7171ed25f119e0a6794dec17cd05eaa8b70db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 029/119] fix: CEM passes the result of a product as the third
 argument

The results came first, so products went into the caller's target spectrum and
the returned detection image was all zero; the sums also need zeroed memory.
---
 modules/algorithm/src/cem.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 40092db..345329d 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -39,13 +39,13 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 
 	invert_matrix_float(invdata, c_data, bands);
 
-	float* fir1 = (float*)malloc(bands * sizeof(float));
-	float* fir2 = (float*)malloc(bands * sizeof(float));
-	float* fir3 = (float*)malloc(sizeof(float));
+	float* fir1 = (float*)calloc(bands, sizeof(float));
+	float* fir2 = (float*)calloc(bands, sizeof(float));
+	float* fir3 = (float*)calloc(1, sizeof(float));
 
-	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
-	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
-	MulMatrix_float(fir3, fir2, spectral, 1, bands, 1);
+	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
+	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
+	MulMatrix_float(fir2, spectral, fir3, 1, bands, 1);
 
 	for(int i=0; i<bands; i++)
 		fir1[i] = fir1[i]/fir3[0];
@@ -53,7 +53,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	simple_mat res = create_simple_mat(lines, samples, data_type, 1);
 	float* res_data = (float*)res->data;
 
-	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
+	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
 	delete_simple_mat(src);
 	delete_simple_mat(t);
-- 
2.43.0


From 06f3872d1eb37018e17216303a736dde051f9d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 030/119] fix: relative correction uses one coefficient per
 band and sample

The table has a row of samples for every band, but rows were taken to be
bands long: wrong detectors were used, and a narrow image read past the table.
---
 modules/process/src/c_src/RadiometricCalibration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index f544fd0..7cfda62 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -24,7 +24,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 		{
 			for (int k = 0; k < bands; k++)
 			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*bands + j];
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
 			}
 		}
 	}
-- 
2.43.0


From 75386cd6c1d22424a5b2edbb8f5175925d216eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 031/119] fix: spectral angle keeps the fraction of its
 products

The integer abs dropped it, so reflectances below one had the angle pi/2 with
everything; and rounding could push the cosine above one, giving NaN for a
spectrum and itself.
---
 modules/process/src/c_src/spectralprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4eaf7f7..84cfb00 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -93,12 +93,12 @@ float spectral_angle_mapper(float * x, float * y, int length)
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += abs(x[i] * y[i]);
+		XY += fabs(x[i] * y[i]);
 		X += (x[i])*(x[i]);
 		Y += (y[i])*(y[i]);
 	}
 
-	res = acos(XY / sqrt(X*Y));
+	res = acos(fmin(XY / sqrt(X*Y), 1.0));
 
 	return res;
 }
-- 
2.43.0


From 41bbee5c9b7bd78f0dabff6e50a45829cb51d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 032/119] fix: read_spectrum_file stops at the requested length

A longer file overran the buffer and text that is no number was read again
forever; missing values were uninitialised.
---
 modules/process/src/c_src/spectralprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 84cfb00..484c22c 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -115,13 +115,13 @@ float* read_spectrum_file(const char* sp_path, int length)
 
 	hypercv_assert(fp != NULL, "can not open files");
 
-	float* spectrum = (float*)malloc(length*sizeof(float));
+	float* spectrum = (float*)calloc(length, sizeof(float));
 
 	float* sp = spectrum;
 
 	float temp = 0;
 
-	while (fscanf(fp, "%f", &temp) != EOF)
+	while (sp < spectrum + length && fscanf(fp, "%f", &temp) == 1)
 	{
 		*sp = temp;
 		sp++;
-- 
2.43.0


From b259be437b9c47c42d28de82fa79ad793e8aa281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 033/119] fix: histogram equalisation accumulates pixel counts

Scaled values were added to counts, so the mapping was not the cumulative
histogram, and level 0 kept its raw count.
---
 modules/algorithm/src/HisEqualization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 5b45383..151bbfc 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -27,10 +27,10 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 		hist[data[i]]+=1;
 	
 	for(int i=1; i<256; i++)
-	{
 		hist[i] += hist[i-1];
+
+	for(int i=0; i<256; i++)
 		hist[i] = hist[i]*255/(rows*cols);
-	}
 	
 	for(int i=0; i<rows*cols; i++)
 		dst_data[i] = hist[data[i]];
-- 
2.43.0


From 6da3ee150973f7eb1d2893bf6782b015f87a70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 034/119] fix: linear stretch finds the maximum of a negative
 band

The search started at 0 (and at 1e9 for the minimum), so a band below zero was
not stretched to the full range.
---
 modules/algorithm/src/HisEqualization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 151bbfc..a80a304 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -53,8 +53,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int res=0;
 	for(int k=0; k<bands; k++)
 	{
-		maxdata = 0.0;
-		mindata = 1000000000;
+		maxdata = srcdata[k*samples*lines];
+		mindata = srcdata[k*samples*lines];
 		tmp =0.0;
 		res =0;
 		for(int i=0; i<lines;i++)
-- 
2.43.0


From 915c4e9c38adc5bb34e185fe57f971581a085c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 035/119] fix: normalising a float image gives float results

Results were rounded to 0..255, so a range of 0 to 1 came out as only 0 and 1.
The infinity norm ignored the sign and the extremes started at +-1e6.
---
 modules/algorithm/src/normalize.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index d025d63..87dfae1 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -90,7 +90,6 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	int data_type = src->data_type;
 	int channels = src->channels;
 
-//only uchar//todo 
     float* src_data = (float*)src->data;
 	float* dst_data = (float*)dst->data;
 
@@ -100,7 +99,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] =src_data[i]*alpha/L1_norm;
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -108,20 +107,20 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
+			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
-		float maxsrc=-1000000,minsrc=1000000;
+		float maxsrc=src_data[0],minsrc=src_data[0];
 		for(int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
@@ -131,7 +130,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
 	}
 }
 
-- 
2.43.0


From fc05ed7f0a7c5d57290ece2f6031cc772468ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 036/119] fix: the inverse DFT undoes the forward DFT

The forward transform is not scaled, so the inverse has to divide by the number
of pixels, not by its square root; and a 16 bit result was cut off at 255.
---
 modules/algorithm/src/dft.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 4348a79..bb6160b 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -189,7 +189,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
@@ -222,7 +222,8 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			real = real / (rows*cols);
+			dst_data[i*cols+j] = real > 65535 ? 65535 : real < 0 ? 0 : HYPERCV_ROUND(real);
 		}
 	}
 }
-- 
2.43.0


From 2214d8e1a6ffcd2ae7899d607e5389d11205748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 037/119] fix: magnitude pairs the parts of the same
 coefficient

The imaginary part was taken from index i*cols*j, which leaves the image.
---
 modules/algorithm/src/dft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index bb6160b..3784b52 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -245,7 +245,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols*j],2));
+			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols+j],2));
 		}
 	}
 }
-- 
2.43.0


From bb3cbcac457085b74338b1255fda4c6afc6729c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 038/119] fix: factorial of 10

The table held 11! in its place.
---
 modules/process/src/c_src/mathprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 412c8ff..103a851 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -6,7 +6,7 @@
  ************************************************************************/
 #include "precomp.h"
 
-static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 39916800};
+static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 3628800};
 /**
  * @brief      calculate the mean value . .
  * @param[in]  t          vector t
-- 
2.43.0


From 8139244d3dd64e97f8c4ae19eac3393bcc743be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 039/119] fix: k-means goes on while a centre moves up or left

Only moves to larger coordinates counted, so it stopped early with centres that
are not the means of their pixels.
---
 modules/algorithm/src/cluster.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 14977a3..5b98d63 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -88,7 +88,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			v2[k].x = v2[k].x / num[k];
 		    v2[k].y = v2[k].y / num[k];
 			}
-			if(v2[k].x-v1[k].x > iter_threshold || v2[k].y-v1[k].y > iter_threshold)
+			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
 			v1[k].y = v2[k].y;
-- 
2.43.0


From 23cadc6436df99ac916b8a125ad93b2b578e47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 040/119] fix: conversions from float saturate at the limits of
 the result

Signed bytes above 127 became -128, short and unsigned short wrapped around,
unsigned int lost everything above 2^31, negative pixels of an image became
large ones, and values beyond the int range went to the wrong limit.
---
 modules/process/src/c_src/datatypechange.c | 53 +++++++++++-----------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index d345fd9..acf3acb 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -143,7 +143,7 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i]=HYPERCV_ROUND(fdata[i]);
+		data[i]=fdata[i]>=2147483648.0f ? 2147483647 : HYPERCV_ROUND(fdata[i]);
 	
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -171,14 +171,12 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>127)
-			data[i] = 128;
-		else if(tmp<-127)
-			data[i] = -127;
+		if(fdata[i]>127)
+			data[i] = 127;
+		else if(fdata[i]<-128)
+			data[i] = -128;
 		else
-			data[i] = tmp;
+			data[i] = HYPERCV_ROUND(fdata[i]);
 
 	}
 		
@@ -208,7 +206,14 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i] =(short)HYPERCV_ROUND(fdata[i]);
+	{
+		if(fdata[i]>32767)
+			data[i] = 32767;
+		else if(fdata[i]<-32768)
+			data[i] = -32768;
+		else
+			data[i] = HYPERCV_ROUND(fdata[i]);
+	}
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -236,11 +241,12 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-		if(tmp<0)
-			data[i] =0;
+		if(fdata[i]>65535)
+			data[i] = 65535;
+		else if(fdata[i]<0)
+			data[i] = 0;
 		else
-			data[i] = tmp;
+			data[i] = HYPERCV_ROUND(fdata[i]);
 	}	
 
 	if(f_mat->wavelength != NULL)
@@ -269,14 +275,12 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>255)
+		if(fdata[i]>255)
 			data[i] = 255;
-		else if(tmp<0)
+		else if(fdata[i]<0)
 			data[i] = 0;
 		else
-			data[i] = tmp;
+			data[i] = HYPERCV_ROUND(fdata[i]);
 
 	}	
 
@@ -306,14 +310,12 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>4294967295)
-			data[i] =4294967295;
-		else if(tmp<0)
+		if(fdata[i]>=4294967296.0f)
+			data[i] = 4294967295;
+		else if(fdata[i]<0)
 			data[i] = 0;
 		else
-			data[i] = tmp;
+			data[i] = (unsigned int)rint(fdata[i]);
 
 	}	
 
@@ -379,8 +381,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   */
 	for(int i=0;i<rows*cols*cn;i++)
 	{
-		dst_data[i] = HYPERCV_ROUND(src_data[i])<=255?HYPERCV_ROUND(src_data[i]):255;
-		dst_data[i] = dst_data[i]>=0?dst_data[i]:0;
+		dst_data[i] = saturate_cast_float2uchar(src_data[i]);
 	}
 	return dst;
 }
-- 
2.43.0


From 3099b097a93466826822b576083efbbbc9e6f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 041/119] fix: hypercv_atof reads negative exponents and keeps
 the sign

"1.5e-3" was read as 1500, "1e-3" as 1, and "-5 nm" as 5.
---
 modules/process/src/c_src/datatypechange.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index acf3acb..542dd6c 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -404,7 +404,7 @@ float hypercv_atof(const char *str)
 
 	else if (*p == '+')
 		++p;
-	int hasDot = 0,hasE = 0;
+	int hasDot = 0,hasE = 0,expSign = 1;
 	float integerPart = 0.0,decimalPart = 0.0;
 
 	for (; *p; ++p)
@@ -424,12 +424,15 @@ float hypercv_atof(const char *str)
 			break;
 		}
 		else
-			return integerPart;
+			return sign * integerPart;
 	}
 
 	int decimalDigits = 1;
 	int exponential = 0;    
 
+	if (hasE && (*p == '-' || *p == '+'))
+		expSign = *p++ == '-' ? -1 : 1;
+
 	for (; *p; p++)
 	{
 		if (hasDot && isdigit(*p))
@@ -447,11 +450,14 @@ float hypercv_atof(const char *str)
 		else break;
 	}
 
+	if (hasE && hasDot && (*p == '-' || *p == '+'))
+		expSign = *p++ == '-' ? -1 : 1;
+
 	if (hasE && hasDot)
 		for (; *p; p++)
 			if (isdigit(*p))
 				exponential = 10 * exponential + *p - '0';
-	return sign * (integerPart * pow(10, exponential) + decimalPart);
+	return sign * (integerPart * pow(10, expSign * exponential) + decimalPart);
 
 }
 
-- 
2.43.0


From 4ccb65b4489c34808f1c2dbda16e5447a534cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 042/119] fix: simple_mat_2_hyper_mat copies whole elements

Offset and length were counted in bytes, so for anything but 8 bit data a part
of the band was written to the wrong place.
---
 modules/process/src/c_src/imageprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5aa544a..f2b600d 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -535,10 +535,13 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(band<=bands&&band>0,"band<bands");
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1);
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"simple mat data type unequal to hyper mat");
+
+	int elemsize = get_elemsize(dst_mat->data_type);
+	char* dst = (char*)dst_mat->data + samples*lines*(band-1)*elemsize;
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines);
+	memcpy(dst,src,samples*lines*elemsize);
 }
 
 /**
-- 
2.43.0


From 040ee1d64d134c8ed30eda2fb15020670addba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 043/119] fix: adding images of different width uses each
 image's own rows

The common width was taken as the row stride of all three images.
---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index f2b600d..a94eb74 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -595,7 +595,7 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)	
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_mat->cols*channels+j*channels+k] = data1[i*mat1->cols*channels+j*channels+k]+data2[i*mat2->cols*channels+j*channels+k];
 
 }
 
@@ -624,7 +624,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_mat->cols*channels+j*channels+k] = data1[i*mat1->cols*channels+j*channels+k]+data2[i*mat2->cols*channels+j*channels+k];
 
 }
 
-- 
2.43.0


From 93ade09153f3b7e855205e1baa041b2cb157f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 044/119] fix: hyper_mat_get_range rejects a range outside the
 cube

It copied memory before or behind the cube into the result.
---
 modules/process/src/c_src/imageprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index a94eb74..e8bad01 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -389,6 +389,9 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 {
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
 
+	hypercv_assert(start_col>=0 && start_row>=0 && start_band>=0, "range must start inside the mat");
+	hypercv_assert(end_col<=src_mat->samples && end_row<=src_mat->lines && end_band<=src_mat->bands, "range must end inside the mat");
+
 	int samples = end_col - start_col;
 	int lines = end_row - start_row;
 	int bands = end_band - start_band;
-- 
2.43.0


From 8e8bff30b54c54e4efd997c629577c8328ff88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 045/119] fix: hyper_mat_rotate turns about the centre and
 stays in the image

The row offset was computed from the width and the column offset from the
height, so for most angles pixels were written outside the result.
---
 modules/process/src/c_src/GeometricTransformation.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5ec5845..f546013 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -181,8 +181,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 
 	hyper_mat dst_mat = create_hyper_mat_with_data(width, height, mat->bands,mat->data_type, mat->interleave, NULL, mat->wavelength);
 
-	int di = x0 + width / 2;
-	int dj = y0 + height / 2;
+	double ci = (mat->lines-1)/2.0;
+	double cj = (mat->samples-1)/2.0;
 	
 	unsigned char* src_data = (unsigned char*)mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
@@ -193,8 +193,10 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	{
 		for(int j=0;j<mat->samples;j++)
 		{
-            int x = i * c + j * s + di;
-			int y = j * c - i * s + dj;
+			int x = floor((i-ci)*c + (j-cj)*s + height/2.0);
+			int y = floor((j-cj)*c - (i-ci)*s + width/2.0);
+			if(x < 0 || x >= height || y < 0 || y >= width)
+				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
 			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
-- 
2.43.0


From 5da8939da41f781d3687420066ac8e9cb1b1cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 046/119] fix: vector_init compiles and releases the previous
 vector

---
 modules/core/include/c_include/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 00970b2..5368492 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -164,9 +164,9 @@ vector_set_size((vec), vector_size(vec) + 1); \
 
 #define vector_init(vec,value,size) \
 	do{\
-		if(!vec)                                      \
+		if(vec)                                       \
 		{                                             \
-			vector_free(vec)                          \
+			vector_free(vec);                         \
 		}                                             \
 		size_t __temp_iter = 0;                       \
 		if(size)                                      \
-- 
2.43.0


From 51b86b3db716b3cc135d609db86f9031c9b7f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 047/119] fix: draw_line draws on gray images

---
 modules/highgui/src/draw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index bae668a..002e16d 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -79,7 +79,7 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 							dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
 						}
 						else if(channels == 1)
-							dst_data[i*cols+(j+t)] == color.r;
+							dst_data[i*cols+(j+t)] = color.r;
 					}
 				}
 			}
-- 
2.43.0


From 5ce4a9f5ceb6b6d605a44e150657db4d9639d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 048/119] fix: HyMat checks the requested size and starts empty

---
 modules/core/include/cxx_include/hypermat.hpp | 62 +++++++++----------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d940d16..57b1e26 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -27,19 +27,19 @@ namespace hypercv
 			/* 
 			 * HYPER_MAT 
 			 * */
-			int          lines;
-			int          samples;
-			int          bands;
-			int          dataType;
-			int          format;
+			int          lines = 0;
+			int          samples = 0;
+			int          bands = 0;
+			int          dataType = 0;
+			int          format = HYPERCV_BSQ;
 			//todo 修改所有format 改成 int format， HYPERCV_BIL HYPERCV_BIP HYPERCV_BSQ 
 
-			char         interleave[3];
-			void*        data;
-			float*       wavelength;
+			char         interleave[3] = {'b', 's', 'q'};
+			void*        data = NULL;
+			float*       wavelength = NULL;
 
-			int          elemSize;
-			long int     dataSize;
+			int          elemSize = 0;
+			long int     dataSize = 0;
 
 			HyMat();
 
@@ -82,7 +82,6 @@ namespace hypercv
 
 	inline HyMat::HyMat()
 	{
-		create(0, 0, 0, HYPERCV_UCHAR, HYPERCV_BSQ);
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format)
@@ -121,16 +120,16 @@ namespace hypercv
 	inline void HyMat::create(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
 
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
 		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
@@ -327,16 +326,16 @@ namespace hypercv
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
 		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
@@ -449,6 +448,7 @@ namespace hypercv
 		data = NULL;
 		wavelength = NULL;
 		samples = lines = bands = dataType = 0;
+		dataSize = 0;
 
 	}
 
-- 
2.43.0


From 34f45cd5383c42da1bfd718b9f26eb1366aae9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 049/119] fix: HyMat rejects an unknown format

---
 modules/core/include/cxx_include/hypermat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 57b1e26..a1d8f53 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -130,7 +130,7 @@ namespace hypercv
 				_dataType == 13 ||
 				_dataType == 14 ||
 				_dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
 			release();
@@ -336,7 +336,7 @@ namespace hypercv
 				_dataType == 13 ||
 				_dataType == 14 ||
 				_dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
 			release();
@@ -359,7 +359,7 @@ namespace hypercv
 
 	inline void HyMat::convertTo(int _format)
 	{
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 		
 		if(_format == format)
 			return;
-- 
2.43.0


From d1a4d987beff805fe91e0b0fa75128eb18299445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 050/119] fix: HyMat::open reads no more than the image holds

---
 modules/core/include/cxx_include/hypermat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index a1d8f53..8b93ab8 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -320,7 +320,7 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		fread(data, elemSize, dataSize / elemSize, _fp);
 		fclose(_fp);
 	}
 
@@ -352,7 +352,7 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		fread(data, elemSize, dataSize / elemSize, _fp);
 		fclose(_fp);
 
 	}
-- 
2.43.0


From d61836a2b47f449518a2b97fa4c7bdf5047fe1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 051/119] fix: HyMat::save names the header after the image

---
 modules/core/include/cxx_include/hypermat.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 8b93ab8..73d6a35 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -264,7 +264,11 @@ namespace hypercv
 	inline void HyMat::writeHdr(const char* filePath)
 	{
 		std::string path(filePath);
-		path = path.substr(0, path.find('.')) + "hdr";
+		size_t slash = path.find_last_of('/');
+		size_t dot = path.find_last_of('.');
+		if(dot != std::string::npos && (slash == std::string::npos || dot > slash))
+			path = path.substr(0, dot);
+		path += ".hdr";
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
-- 
2.43.0


From 2b77cf336739b05a39b17045c7ad4b23925f06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 052/119] fix: HyMat::save closes the dataset it creates

---
 modules/core/include/cxx_include/hypermat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 73d6a35..d2da47c 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -243,6 +243,8 @@ namespace hypercv
 
 		char** papszOptions = NULL;
 		dataSet = hDriver->Create(filePath, samples, lines, bands, DT, papszOptions);
+		if(dataSet != NULL)
+			GDALClose(dataSet);
 
 		//	dataSet->RasterIO(GF_Write, 0, 0, samples, lines, data, DT, )
 		//todo	
-- 
2.43.0


From fe2a9fdcf52867905828f4e04aa18afdf4a2a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 053/119] fix: readHdr allocates the wavelengths and splits
 them at commas

---
 modules/core/include/cxx_include/hypermat.hpp | 14 ++++-----
 modules/core/src/cxx_src/hypermat.cpp         | 29 ++++++++++---------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d2da47c..a9b536d 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -12,7 +12,7 @@
 
 namespace hypercv
 {
-	extern void readHdr(const char* hdrPath, int& samples, int& lines, int& bands, int& dataType, int& format, float* wavelength);
+	extern void readHdr(const char* hdrPath, int& samples, int& lines, int& bands, int& dataType, int& format, float*& wavelength);
 
 #if gdal_switch
 #ifndef DATA_TYPE_2_GDAL_DATA_TYPE
@@ -307,15 +307,11 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		int _samples, _lines, _bands, _dataType;
-		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
+		int _samples = 0, _lines = 0, _bands = 0, _dataType = 0;
+		float* _wavelength = NULL;
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, _wavelength);
 
-		samples = _samples;
-		lines = _lines;
-		bands = _bands;
-		dataType = _dataType;
-
-		create();
+		create(_samples, _lines, _bands, _dataType, format, NULL, _wavelength);
 
 		FILE* _fp = NULL;
 		_fp = fopen(imagePath, "r");
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 7b468a5..767910e 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -45,7 +45,7 @@ namespace hypercv
 	}
 #endif
 
-	void readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float* wavelength)
+	void readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float*& wavelength)
 	{
 		if(hdrPath == NULL)
 			return;
@@ -56,8 +56,7 @@ namespace hypercv
 		if(!file.is_open())
 			return;
 
-		string lineBuff;
-
+		string lineBuff, waveBuff;
 
 		while (getline(file,lineBuff))
 		{  
@@ -88,28 +87,32 @@ namespace hypercv
 			}
 			else if (lineBuff.find("wavelength = {")!=lineBuff.npos)
 			{	
-				string waveBuff, s;
-				stringstream ss;
 				do
 				{
 					int startIndex, endIndex;
 
 					startIndex = lineBuff.find('{')==lineBuff.npos?0:lineBuff.find('{')+1;
 					endIndex = lineBuff.find('}')==lineBuff.npos?lineBuff.size():lineBuff.find('}');
-					waveBuff += lineBuff.substr(startIndex,endIndex);
+					waveBuff += lineBuff.substr(startIndex,endIndex-startIndex) + ' ';
 				}
 				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
-				ss<<waveBuff;
-				for(int i=0;i<bands;i++)
-				{
-					ss>>s;
-					wavelength[i] = atof(s.c_str());
-				}
-
 			}
 		}
 
 		file.close();
+
+		if(bands > 0 && !waveBuff.empty())
+		{
+			for(size_t i=0;i<waveBuff.size();i++)
+				if(waveBuff[i] == ',')
+					waveBuff[i] = ' ';
+
+			string s;
+			stringstream ss(waveBuff);
+			wavelength = (float*)calloc(bands, sizeof(float));
+			for(int i=0;i<bands&&ss>>s;i++)
+				wavelength[i] = atof(s.c_str());
+		}
 	}
 
 	/**
-- 
2.43.0


From dcd33229aa71a9c98609a606222d9c4bec449050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 054/119] fix: readHdr stays inside its buffer and reads only
 'data type'

---
 modules/core/src/cxx_src/hypermat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 767910e..d1dce80 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -61,8 +61,8 @@ namespace hypercv
 		while (getline(file,lineBuff))
 		{  
 			const char* line = lineBuff.c_str();
-			char item[20];
-			sscanf(line, "%[^=]", item);
+			char item[20] = "";
+			sscanf(line, "%19[^=]", item);
 
 			if (cmpstr(item, (char*)"samples") == 1)
 				sscanf(line, "%*[^=]=%d",&samples);
@@ -73,7 +73,7 @@ namespace hypercv
 			else if (cmpstr(item, (char*)"bands") == 1)
 				sscanf(line, "%*[^=]=%d", &bands);
 
-			else if (cmpstr(item, (char*)"data") == 1)
+			else if (cmpstr(item, (char*)"data type") == 1)
 				sscanf(line, "%*[^=]=%d", &dataType);
 
 			else if (lineBuff.find("interleave")!=lineBuff.npos)
-- 
2.43.0


From bd84b1fe12b6d84fc70cabfa8c93124d47dc126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 055/119] fix: draw_line follows the line between its two
 points

---
 modules/highgui/src/draw.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index 002e16d..7fc8300 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -59,28 +59,29 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 
 	memcpy(dst_data,src_data,rows*cols*channels);	
 
-	float k = (float)(pt2.x-pt1.x)/(pt2.y-pt1.y);
-	float b = (float)pt1.y-k*pt1.x;
+	int dx = pt2.x-pt1.x;
+	int dy = pt2.y-pt1.y;
+	int steps = abs(dx)>abs(dy)?abs(dx):abs(dy);
 
-	for(int i=0;i<rows;i++)
+	for(int s=0;s<=steps;s++)
 	{
-		for(int j=0;j<cols;j++)
+		int j = steps==0?pt1.x:(int)floor(pt1.x+(double)dx*s/steps+0.5);
+		int i = steps==0?pt1.y:(int)floor(pt1.y+(double)dy*s/steps+0.5);
+
+		if(i>=0&&i<rows)
 		{
-			if(i==(int)(j*k+b+0.5))
+			for(int t=-thickness/2;t<=thickness/2;t++)
 			{
-				for(int t=-thickness/2;t<=thickness/2;t++)
+				if(j+t>=0&&j+t<cols)
 				{
-					if(j+t>=0&&j+t<cols)
+					if(channels ==3)
 					{
-						if(channels ==3)
-						{
-							dst_data[i*cols*channels+(j+t)*channels] = color.r;
-							dst_data[i*cols*channels+(j+t)*channels+1] = color.g;
-							dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
-						}
-						else if(channels == 1)
-							dst_data[i*cols+(j+t)] = color.r;
+						dst_data[i*cols*channels+(j+t)*channels] = color.r;
+						dst_data[i*cols*channels+(j+t)*channels+1] = color.g;
+						dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
 					}
+					else if(channels == 1)
+						dst_data[i*cols+(j+t)] = color.r;
 				}
 			}
 		}
-- 
2.43.0


From 5d269cf1d468c64dc9b87983337ba1f9b822a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 056/119] fix: hyper_mat_pca checks the data type instead of
 setting it

---
 modules/algorithm/src/pca.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index cbe71c5..e9b9c5c 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -36,7 +36,7 @@ static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat r
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
-	hypercv_assert(bip_mat->data_type = 4,"only use in float");
+	hypercv_assert(bip_mat->data_type == 4,"only use in float");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-- 
2.43.0


From fa62791d901148e7d69feef568d0aefb8ae1f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 057/119] fix: the QR iteration of PCA multiplies R by Q

---
 modules/algorithm/src/pca.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index e9b9c5c..1e16725 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -55,7 +55,8 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	for(int i=0;i<iteration;i++)//迭代qr分解
 	{
 		matrix_QR_float((float*)temp->data,(float*)q_mat->data,(float*)r_mat->data,bands);
-		MulMatrix_float((float*)q_mat->data,(float*)r_mat->data,(float*)temp->data,bands,bands,bands);
+		memset(temp->data,0,bands*bands*sizeof(float));
+		MulMatrix_float((float*)r_mat->data,(float*)q_mat->data,(float*)temp->data,bands,bands,bands);
 	}
 	//计算特征值，特征向量
 	float* evalue = (float*)malloc(bands*sizeof(float));
-- 
2.43.0


From 5e50871bfd62c2418c2f5b9aa1e6f159768135fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 058/119] fix: PCA centres each band on its own mean

---
 modules/algorithm/src/pca.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 1e16725..4f8e7be 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -6,27 +6,31 @@
 #include "precomp.h"
 //________private function________________
 
-static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat res_mat)
+static void cal_covariance_matrix(simple_mat x, simple_mat res_mat)
 {//only for float
 
-	int samples = mean_mat->cols;
-	int lines = mean_mat->rows;
+	int pixels = x->rows;
 	int bands = x->cols;
 
 	float* x_data = (float*)x->data;
-	float* mean_data = (float*)mean_mat->data;
 	float* res_data = (float*)res_mat->data;
 	
-	for(int i=0;i<samples*lines;i++)
-		for (int j=0;j<bands;j++)
-			 x_data[i*bands+j] -= mean_data[i];
+	for (int j=0;j<bands;j++)
+	{
+		double mean = 0;
+		for(int i=0;i<pixels;i++)
+			mean += x_data[i*bands+j];
+		mean /= pixels;
+		for(int i=0;i<pixels;i++)
+			x_data[i*bands+j] -= mean;
+	}
 
-	simple_mat t = create_simple_mat(bands,samples*lines,4,1);
+	simple_mat t = create_simple_mat(bands,pixels,4,1);
     simple_mat_transport(t,x);
 
 	float* t_data = (float*)t->data;
 	
-	MulMatrix_float(t_data,x_data,res_data,bands,lines*samples,bands);
+	MulMatrix_float(t_data,x_data,res_data,bands,pixels,bands);
 	
 	delete_simple_mat(t);
 }
@@ -40,13 +44,10 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-//计算平均图像	
-	simple_mat mean_mat = create_simple_mat(lines,samples,4,1);
-	hyper_mat_mean(bip_mat,mean_mat);
 //计算自相关矩阵
 	simple_mat reshape_mat = reshape_hypermat_2_simplemat(bip_mat,samples*lines,bands);
 	simple_mat cov_mat = create_simple_mat(bands,bands,4,1);
-	cal_covariance_matrix(reshape_mat,mean_mat,cov_mat);
+	cal_covariance_matrix(reshape_mat,cov_mat);
 
 	simple_mat temp = simple_mat_copy(cov_mat);
 	simple_mat q_mat = create_simple_mat(cov_mat->rows,cov_mat->cols,4,1);
@@ -78,7 +79,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 
 	TransMatrix_float(eigen_vector_q->data,transport_eigen_vector_q->data,eigen_vector_q->rows,eigen_vector_q->cols);
 */
-	delete_simple_mat(mean_mat);
+	free(evalue);
 	delete_simple_mat(cov_mat);
 	delete_simple_mat(reshape_mat);
 	delete_simple_mat(r_mat);
-- 
2.43.0


From d9016fd15059880835a943ba88a1a82c20fc4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 059/119] fix: writehdr rejects a header it cannot open and
 frees its buffers

---
 modules/core/src/c_src/hypermat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 425c06f..64a2961 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -352,6 +352,8 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 
 	FILE *fp;
 	fp = fopen(hdr_path, "w");
+	free(hdr_path);
+	hypercv_assert(fp != NULL, "can not open hdr file");
 
 	fputs("ENVI\n", fp);
 	fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
@@ -365,6 +367,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	it[3] = '\0';
 
 	fputs("interleave = ", fp); fprintf(fp, "%s\n", it);
+	free(it);
 
 	if(wavelength!=NULL)
 	{
-- 
2.43.0


From 7a2471639559046b132777da5013335abb266639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 060/119] fix: hyper_mat_2_simple_mat rejects a band outside
 the cube

---
 modules/process/src/c_src/imageprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index e8bad01..1d45fc1 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -509,6 +509,7 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 {
 	hypercv_assert(cmpstr(src_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
+	hypercv_assert(band>0&&band<=src_mat->bands, "band must be inside the mat");
 	int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
-- 
2.43.0


From 500ffd9031f919cfa2c0152d6b42a4497929a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 061/119] fix: hyper_mat_splicing rejects a part that does not
 fit

---
 modules/process/src/c_src/imageprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 1d45fc1..72c8aa3 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -650,6 +650,7 @@ void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 {
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
+	hypercv_assert(start_index>=0 && (long int)start_index + (long int)part->samples*part->lines*part->bands <= (long int)mat->samples*mat->lines*mat->bands, "part must fit into the mat");
 
 	int elemsize = get_elemsize(mat->data_type); 
 
-- 
2.43.0


From dcca096504723a8d2987a6b3730603569bd59234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 062/119] fix: smread_bmp rejects files that do not hold a
 whole bitmap

---
 modules/core/src/c_src/simplemat.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index ac50113..8ab2c0c 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -124,20 +124,23 @@ simple_mat smread_bmp(const char *bmpName)
 	hypercv_assert(fp!=NULL, "BMP IMAGE NOT EXIST");
 
 	BmpFileHeader fileHead;
-	fread(&fileHead, sizeof(BmpFileHeader), 1, fp);
 	BmpInfoHeader head;
-	fread(&head, sizeof(BmpInfoHeader), 1, fp);
+	hypercv_assert(fread(&fileHead, sizeof(BmpFileHeader), 1, fp) == 1 && fread(&head, sizeof(BmpInfoHeader), 1, fp) == 1 && fileHead.bfType == 0x4D42, "not a BMP image");
  
 	int channels   = 3;
 	int bmpWidth   = head.biWidth;
 	int bmpHeight  = head.biHeight;
 	int biBitCount = head.biBitCount;
 	hypercv_assert(biBitCount == 24 && bmpWidth > 0 && bmpHeight > 0, "only 24 bit bottom-up BMP image can be read");
-    int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
+    size_t lineByte = ((size_t)bmpWidth * biBitCount / 8 + 3) / 4 * 4;
 	
+	fseek(fp, 0, SEEK_END);
+	long fileSize = ftell(fp);
+	hypercv_assert(fileSize >= 0 && (size_t)fileSize >= fileHead.bfOffBits && ((size_t)fileSize - fileHead.bfOffBits) / lineByte >= (size_t)bmpHeight, "BMP image does not hold all its pixels");
 	fseek(fp, fileHead.bfOffBits, SEEK_SET);
-	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
-	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
+	unsigned char* pBmpBuf = (unsigned char *)malloc(lineByte * bmpHeight);
+	hypercv_assert(pBmpBuf != NULL, "failed to allocate memory");
+	hypercv_assert(fread(pBmpBuf, 1, lineByte * bmpHeight, fp) == lineByte * bmpHeight, "BMP image does not hold all its pixels");
 	fclose(fp);
 
 	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
-- 
2.43.0


From 377f529dcfd5472a308f5afcb086efe7962b298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 063/119] fix: hyper_mat_rotate keeps rows and columns straight
 at right angles

---
 modules/process/src/c_src/GeometricTransformation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index f546013..69398fe 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -156,7 +156,7 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 
 	if(cmpstr(mat->interleave,"bip")!=1)
 		convert2bip(mat);
-	double theta = angle * PI/180;
+	double theta = angle * M_PI/180;
 	double c = cos(theta);
 	double s = sin(theta);
 
@@ -193,8 +193,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	{
 		for(int j=0;j<mat->samples;j++)
 		{
-			int x = floor((i-ci)*c + (j-cj)*s + height/2.0);
-			int y = floor((j-cj)*c - (i-ci)*s + width/2.0);
+			int x = floor((i-ci)*c + (j-cj)*s + height/2.0 + 1e-9);
+			int y = floor((j-cj)*c - (i-ci)*s + width/2.0 + 1e-9);
 			if(x < 0 || x >= height || y < 0 || y >= width)
 				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
-- 
2.43.0


From eac2e5f3e0e9765bb2d0b4b588a8e634199fb73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 064/119] fix: HyMat::range rejects a range outside the cube

---
 modules/core/include/cxx_include/hypermat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index a9b536d..ae6d822 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -477,6 +477,7 @@ namespace hypercv
 	inline HyMat HyMat::range(int startRow, int startCol, int startBand, int endRow, int endCol, int endBand)
 	{
 		hypercv_assert(startCol<endCol && startRow<endRow && startBand<endBand, "start col & start row & start band must < end col & end row & end band");
+		hypercv_assert(startCol>=0 && startRow>=0 && startBand>=0 && endCol<=samples && endRow<=lines && endBand<=bands, "range must be inside the mat");
 
 		int newSamples = endCol - startCol;
 		int newLines = endRow - startRow;
-- 
2.43.0


From 3ca200906e9a62b8f5547546c4cc04a00cf2520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 065/119] fix: filters take the pixels outside a constant
 border as zero

---
 modules/core/include/c_include/type.h | 2 +-
 modules/process/src/c_src/filter.c    | 9 +++++++++
 modules/process/src/c_src/gradient.c  | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 6af5017..f77f932 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -181,7 +181,7 @@ static inline int hypercv_border_Interpolate(int p, int len, unsigned int border
 			}
 		case BORDER_CONSTANT:
 			{
-				index = 1;
+				index = -1;
 				break;
 			}
 	}
diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 7c97ce8..3d6f62b 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -113,6 +113,9 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 						index_j = hypercv_border_Interpolate( j+n-k_cols/2, cols, border_type);
 					else
 						index_j = j+n-k_cols/2;
+
+					if (index_i < 0 || index_j < 0)
+						continue;
 			
 					if (cn == 1)
 						dst_data[i*cols+j] += (kernel[m*k_cols+n]*src_data[index_i*cols+index_j]);
@@ -374,6 +377,9 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					index = j+k-border_x;
 				}
 
+				if (index < 0)
+					continue;
+
 				if (cn == 1)
 				{
 					sum[0] += (kx_data[k]*src_data[i*src_cols+index]);
@@ -421,6 +427,9 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					index =j+k-border_y;
 				}
 
+				if (index < 0)
+					continue;
+
 				if (cn == 1)
 					sum[0] += (ky_data[k]*temp_data[(index)*temp_mat->cols+i]);
 				else if (cn == 3)
diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 61638b9..8f1e3fc 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -54,6 +54,9 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 					else
 						index_n = j+n-1;
 
+					if(index_m<0||index_n<0)
+						continue;
+
 					sum += kernel[m][n]*src_data[index_m*cols+index_n];
 				}
 			}
@@ -117,6 +120,9 @@ void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_typ
 					else
 						index_n = j+n-1;
 
+					if(index_m<0||index_n<0)
+						continue;
+
 					gradx += gx[m][n]*src_data[index_m*cols+index_n];
 					grady += gy[m][n]*src_data[index_m*cols+index_n];
 				}
-- 
2.43.0


From 1cb23432fca8e78a2a1faa5bde101649e885af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 066/119] fix: cal_edge_signal_energy checks its input instead
 of changing it

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 7ffdee2..d1d5c83 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -9,8 +9,8 @@
 float cal_edge_signal_energy(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input mat cannot be NULL");
-	hypercv_assert(mat->channels = 1,"only use in grayimage");
-	hypercv_assert(mat->data_type = 1,"data_type == 1");
+	hypercv_assert(mat->channels == 1,"only use in grayimage");
+	hypercv_assert(mat->data_type == 1,"data_type == 1");
   
 	float opt1[9] = {-1,-1,1,-1,4,-1,1,-1,-1};
 	float opt2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
-- 
2.43.0


From 3cfc2eaea71c2cd2798510977edde049637895ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 067/119] fix: images and cubes of an unknown data type are
 rejected

---
 modules/core/src/c_src/hypermat.c  | 2 ++
 modules/core/src/c_src/simplemat.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 64a2961..d2c507a 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -166,6 +166,7 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	hypercv_assert(samples > 0, "the samples of hyper mat must be greater than zero.");
 	hypercv_assert(lines > 0, "the lines of hyper mat must be greater than zero.");
 	hypercv_assert(bands > 0, "the bands of hyper mat must be greater than zero.");
+	hypercv_assert(get_elemsize(data_type) > 0, "the data type of hyper mat is not supported.");
 
 	hyper_mat mat;
 
@@ -271,6 +272,7 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 {
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(samples >0 && lines>0 && bands>0, "image size must >0 ");
+	hypercv_assert(get_elemsize(data_type) > 0, "the data type of hyper mat is not supported.");
 
 	FILE* image_fp = NULL;
 	image_fp = fopen( image_path, "r");
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 8ab2c0c..3fcfcc7 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -26,6 +26,7 @@ simple_mat create_simple_mat(int rows, int cols, int date_type, int channels)
 simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int channels, void* data)
 {
 	hypercv_assert(rows > 0 && cols > 0, "the rows and cols of mat must be greater than zero ");
+	hypercv_assert(channels > 0 && get_elemsize(data_type) > 0, "the channels or data type of mat are not supported ");
 
 	simple_mat mat;
 
@@ -68,6 +69,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 simple_mat smread(const char * image_path, int rows, int cols, int data_type, int channels)
 {
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
+	hypercv_assert(rows > 0 && cols > 0 && channels > 0 && get_elemsize(data_type) > 0, "image size or data type error");
 
 	FILE* image_fp;
 	image_fp = fopen(image_path, "r");
-- 
2.43.0


From 7b01c1ad75810d1be522df112f4a6ed1e2247a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 068/119] fix: images and cubes beyond the range of an int are
 rejected

---
 modules/core/include/cxx_include/hypermat.hpp | 1 +
 modules/core/src/c_src/hypermat.c             | 3 +++
 modules/core/src/c_src/precomp.h              | 1 +
 modules/core/src/c_src/simplemat.c            | 4 +++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index ae6d822..1bd3e2c 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -131,6 +131,7 @@ namespace hypercv
 				_dataType == 14 ||
 				_dataType == 15 , " data type error");
 		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert((double)_samples * _lines * _bands * get_elemsize(_dataType) <= 2147483647.0, "HyMat is too large");
 
 		if(data)
 			release();
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index d2c507a..428c9ae 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -167,6 +167,7 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	hypercv_assert(lines > 0, "the lines of hyper mat must be greater than zero.");
 	hypercv_assert(bands > 0, "the bands of hyper mat must be greater than zero.");
 	hypercv_assert(get_elemsize(data_type) > 0, "the data type of hyper mat is not supported.");
+	hypercv_assert((double)samples * lines * bands * get_elemsize(data_type) <= INT_MAX, "the hyper mat is too large.");
 
 	hyper_mat mat;
 
@@ -239,6 +240,7 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 	
 	hypercv_assert(samples > 0 && lines > 0 && bands > 0 && get_elemsize(data_type) > 0, "hdr file is incomplete");
+	hypercv_assert((double)samples * lines * bands * get_elemsize(data_type) <= INT_MAX, "the hyper mat is too large.");
 
 	unsigned int elem_size = get_elemsize(data_type);
 	long int data_size = samples * lines * bands;
@@ -273,6 +275,7 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(samples >0 && lines>0 && bands>0, "image size must >0 ");
 	hypercv_assert(get_elemsize(data_type) > 0, "the data type of hyper mat is not supported.");
+	hypercv_assert((double)samples * lines * bands * get_elemsize(data_type) <= INT_MAX, "the hyper mat is too large.");
 
 	FILE* image_fp = NULL;
 	image_fp = fopen( image_path, "r");
diff --git a/modules/core/src/c_src/precomp.h b/modules/core/src/c_src/precomp.h
index b495581..d0f0757 100644
--- a/modules/core/src/c_src/precomp.h
+++ b/modules/core/src/c_src/precomp.h
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 //#include <tchar.h>
 #include <math.h>
+#include <limits.h>
 #include <string.h>
 #include <stdint.h>
 #include <stddef.h> /* for size_t */
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 3fcfcc7..45be763 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -27,10 +27,11 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 {
 	hypercv_assert(rows > 0 && cols > 0, "the rows and cols of mat must be greater than zero ");
 	hypercv_assert(channels > 0 && get_elemsize(data_type) > 0, "the channels or data type of mat are not supported ");
+	hypercv_assert((double)rows * cols * channels * get_elemsize(data_type) <= INT_MAX, "the mat is too large ");
 
 	simple_mat mat;
 
-	int memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
+	long int memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
 	int elem_size = get_elemsize(data_type);
 
 	if (data == NULL)
@@ -70,6 +71,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 {
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(rows > 0 && cols > 0 && channels > 0 && get_elemsize(data_type) > 0, "image size or data type error");
+	hypercv_assert((double)rows * cols * channels * get_elemsize(data_type) <= INT_MAX, "the mat is too large ");
 
 	FILE* image_fp;
 	image_fp = fopen(image_path, "r");
-- 
2.43.0


From 14f9ebea2b0871d227b66b8140bc0a29f878874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 069/119] fix: equalise images of more than 8.4 million pixels
 without overflow

---
 modules/algorithm/src/HisEqualization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index a80a304..ab38529 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -30,7 +30,7 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 		hist[i] += hist[i-1];
 
 	for(int i=0; i<256; i++)
-		hist[i] = hist[i]*255/(rows*cols);
+		hist[i] = (long long)hist[i]*255/(rows*cols);
 	
 	for(int i=0; i<rows*cols; i++)
 		dst_data[i] = hist[data[i]];
-- 
2.43.0


From 774a50787732dd0c206adbf860ee3e5fc53ce6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 070/119] fix: k-means sums and distances beyond an int

---
 modules/algorithm/src/cluster.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 5b98d63..13e7eaf 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -7,7 +7,7 @@
 
 //----------------------------------private_function--------------------------
 
-static int distance(POINT p, int i,int j)
+static double distance(POINT p, int i,int j)
 {
 	return pow((p.x-j),2) + pow((p.y-i),2);
 }
@@ -36,7 +36,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	int rows = src->rows;
 	int cols = src->cols;
 
-	POINT* v2 = (POINT*)malloc(kind * sizeof(POINT)); 
+	long long (*v2)[2] = malloc(kind * sizeof(*v2)); 
 
 	int* num = (int*)malloc(kind * sizeof(int));	
  
@@ -48,8 +48,8 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 		int y = rand() % rows;
 		v1[i].x = x;
 		v1[i].y = y;
-		v2[i].x = 0;
-		v2[i].y = 0;
+		v2[i][0] = 0;
+		v2[i][1] = 0;
 		num[i]=0;
 	}
 
@@ -66,7 +66,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 				if(data[i*cols+j] != 0)
 				{
 					int min_index = 0;
-					int min_distance = rows*rows+cols*cols;
+					double min_distance = (double)rows*rows+(double)cols*cols;
 					for(int k=0; k<kind; k++)
 					{
 						if(distance(v1[k], i, j) < min_distance)
@@ -75,8 +75,8 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 							min_index = k;
 						}
 					}
-					v2[min_index].x += j;
-					v2[min_index].y += i;
+					v2[min_index][0] += j;
+					v2[min_index][1] += i;
 					num[min_index] += 1;
 				}
 			}
@@ -85,15 +85,15 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 		{
 			if(num[k] != 0)
 			{
-			v2[k].x = v2[k].x / num[k];
-		    v2[k].y = v2[k].y / num[k];
+			v2[k][0] = v2[k][0] / num[k];
+		    v2[k][1] = v2[k][1] / num[k];
 			}
-			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
+			if(abs(v2[k][0]-v1[k].x) > iter_threshold || abs(v2[k][1]-v1[k].y) > iter_threshold)
 				flag = 1;
-			v1[k].x = v2[k].x;
-			v1[k].y = v2[k].y;
-			v2[k].x = 0;
-			v2[k].y = 0;
+			v1[k].x = v2[k][0];
+			v1[k].y = v2[k][1];
+			v2[k][0] = 0;
+			v2[k][1] = 0;
 			num[k]  = 0;
 		}
 		if(flag == 0)
-- 
2.43.0


From 248cd71e4e4d2c3cf36ad1611cce2c8cfe5d0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 071/119] fix: hmread_with_hdr leaves no file open when the
 other is missing

---
 modules/core/src/c_src/hypermat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 428c9ae..0492df1 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -233,6 +233,10 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 
 	if (image_fp == NULL || hdr_fp == NULL)
 	{
+		if (image_fp != NULL)
+			fclose(image_fp);
+		if (hdr_fp != NULL)
+			fclose(hdr_fp);
 		printf("can not open file\n");
 		return 0;
 	}
-- 
2.43.0


From 7802eb9b07936cd3c291acdd6720aec737ad46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 072/119] fix: statistics of colour images release the gray
 image

---
 modules/core/src/c_src/simplemat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 45be763..af1f4af 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -383,6 +383,9 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 
 	for(int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 }
 
 
@@ -426,6 +429,9 @@ float simple_mat_contrast_ratio(simple_mat mat)
 	}
 
 	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 	return res;
 }
 
@@ -469,6 +475,8 @@ float simple_mat_entropy(simple_mat mat)
 		}
 	}
 
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 	return res;
 }
 
-- 
2.43.0


From 13acbc0ff42195ae19becac94f38869630466e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 073/119] fix: gaussian blur releases its kernels and its
 intermediate image

---
 modules/process/src/c_src/filter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3d6f62b..7fab6ae 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -313,6 +313,9 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
 	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
 	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
 	hypercv_gaussian_blur_with_kernel(src_mat, dst_mat, kernel_mat_x, kernel_mat_y, border_type);
+
+	delete_simple_mat(kernel_mat_x);
+	delete_simple_mat(kernel_mat_y);
 }
 
 /**
@@ -460,6 +463,8 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 			}
 		}
 	}
+
+	delete_simple_mat(temp_mat);
 }
 
 /**
-- 
2.43.0


From e20904103100fdbff36858b46f09b736dd7233d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 074/119] fix: pyramid steps release their intermediate images

---
 modules/process/src/c_src/GeometricTransformation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 69398fe..6b69e20 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -100,6 +100,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
 	
+	delete_simple_mat(tmp);
 }
 
 void hypercv_pyramid_up(simple_mat src, simple_mat dst)
@@ -148,6 +149,9 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 		kernel_data[i]=kernel_data[i]*2;
 
 	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+
+	delete_simple_mat(tmp);
+	delete_simple_mat(kernel);
 }
 
 
-- 
2.43.0


From 95bfe90a4645257d6a907b5c3fab6309e80be03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 075/119] fix: match_shapes releases the moments

---
 modules/algorithm/src/shapematch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 5e12322..ef26ccd 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -114,6 +114,8 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double res=0;
 	res = calc_similar_hu(hu1,hu2);
+	free(hu1);
+	free(hu2);
 	return res;
 }
 
-- 
2.43.0


From 1acf0dab322646e1d7321cbcc12123d576e611a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 076/119] fix: k-means of a colour image releases the gray
 image

---
 modules/algorithm/src/cluster.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 13e7eaf..b7f94dc 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -101,4 +101,6 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	}
 	free(v2);
 	free(num);
+	if(mat != src)
+		delete_simple_mat(mat);
 }
-- 
2.43.0


From b4b73aca1c3d8417bf97edd44d9e3b61487f9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 077/119] fix: reading a cube by its size checks that memory
 was allocated

---
 modules/core/src/c_src/hypermat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 0492df1..875c2d1 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -294,6 +294,7 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	long int data_size = samples * lines * bands;
 
 	void* data = (void *)calloc(data_size, elem_size);
+	hypercv_assert(data != NULL, "malloc fail");
 
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
-- 
2.43.0


From 863e73d0ee4dd686aa6299e30d88d5a257368e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 078/119] fix: writing a header checks that memory was
 allocated

---
 modules/core/src/c_src/hypermat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 875c2d1..778e169 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -350,6 +350,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	}
 
 	char* hdr_path = (char*)malloc((len + 5)*sizeof(char));
+	hypercv_assert(hdr_path != NULL, "malloc fail");
 
 	for (int i = 0; i < len; i++)
 		hdr_path[i] = img_path[i];
@@ -372,6 +373,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	fputs("data type = ", fp); fprintf(fp, "%d\n", data_type);
 
 	char* it = (char*)malloc(4*sizeof(char));
+	hypercv_assert(it != NULL, "malloc fail");
 	for(int i=0;i<3;i++)
 		it[i] = interleave[i];
 	it[3] = '\0';
-- 
2.43.0


From 83ed868895fd12798c2a11d51caa2ab31604d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 079/119] fix: reading a raw image checks that memory was
 allocated

---
 modules/core/src/c_src/simplemat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index af1f4af..1285ac7 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -81,6 +81,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 	int elem_size = get_elemsize(data_type);
 	int data_size = rows * cols * channels;
 	void* data = (void *)calloc(data_size, elem_size);
+	hypercv_assert(data != NULL, "malloc fail");
 
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
-- 
2.43.0


From f7261dc6cd58ae9866b6fceabd2d4b9fba253be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 080/119] fix: a structuring element checks that memory was
 allocated

---
 modules/core/src/c_src/struct_2D.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 416b0f6..14588ab 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -16,6 +16,7 @@ S_2D create_2D_struct(int width, int height)
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
 	
 	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
+	hypercv_assert(data != NULL, "malloc fail");
 	
 	for(int i=0; i<width*height; i++)
 		data[i] = 1;
-- 
2.43.0


From 4bed7e2640d71da161f796d74871e29c1ef38030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 081/119] fix: reading wavelengths in C++ checks that memory
 was allocated

---
 modules/core/src/cxx_src/hypermat.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index d1dce80..71e492c 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -110,6 +110,7 @@ namespace hypercv
 			string s;
 			stringstream ss(waveBuff);
 			wavelength = (float*)calloc(bands, sizeof(float));
+			hypercv_assert(wavelength != NULL, "malloc fail");
 			for(int i=0;i<bands&&ss>>s;i++)
 				wavelength[i] = atof(s.c_str());
 		}
-- 
2.43.0


From 0d916d87313ce374009eb206f8341d7ab0738ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 082/119] fix: C++ cubes check that memory was allocated

---
 modules/core/include/cxx_include/hypermat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 1bd3e2c..f8331ca 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -169,6 +169,7 @@ namespace hypercv
 		else 
 		{
 			data = (void*)malloc(dataSize);
+			hypercv_assert(data != NULL, "malloc fail");
 			memset(data, 0, dataSize);
 		}
 
@@ -177,6 +178,7 @@ namespace hypercv
 		else
 		{
 			wavelength = (float*)malloc(bands*sizeof(float));
+			hypercv_assert(wavelength != NULL, "malloc fail");
 			memset(wavelength, 0, bands*sizeof(float));
 		}	
 	}
@@ -369,6 +371,7 @@ namespace hypercv
 
 		char* srcData = (char*)data;
 		char* dstData = (char*)malloc(dataSize);
+		hypercv_assert(dstData != NULL, "malloc fail");
 
 		long int dstIndex, srcIndex; 
 
-- 
2.43.0


From b6d459da7f7830fcefdeed5b367180e85c03f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 083/119] fix: median blur checks that memory was allocated

---
 modules/process/src/c_src/filter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 7fab6ae..8d5457c 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -150,6 +150,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
 	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
+	hypercv_assert(arr != NULL, "malloc fail");
 
 	for(int i=0;i<rows;i++)
 	{
-- 
2.43.0


From fa1f9dd3b37403aad53f46229e6cc3bf839fc6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 084/119] fix: matrix functions check that memory was allocated

---
 modules/process/src/c_src/matrixprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index f0a20a8..d663c8e 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -225,6 +225,7 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 {
 	float* col_a = (float*)malloc(m*sizeof(float));
 	float* col_q = (float*)malloc(m*sizeof(float));
+	hypercv_assert(col_a != NULL && col_q != NULL, "malloc fail");
 
 	for (int j=0;j<m;j++)
 	{
@@ -255,6 +256,7 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
 {
 	float* temp = (float*)malloc(m*n*sizeof(float));
+	hypercv_assert(temp != NULL, "malloc fail");
 	float evalue ;
 
 	for(int count =0;count < n;count++)
@@ -376,6 +378,7 @@ void swap_rows_float(float* data, int m,int n, int r1, int r2)
 	hypercv_assert(r1!=r2,"select row can not equal");
 
 	float* tmp =(float*)malloc(n*sizeof(float));
+	hypercv_assert(tmp != NULL, "malloc fail");
 	float* dr1 = data + r1*n;
 	float* dr2 = data + r2*n;
 
-- 
2.43.0


From fe0a9d2edb12630949103264618304822f8edec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 085/119] fix: spectral functions check that memory was
 allocated

---
 modules/process/src/c_src/spectralprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 484c22c..2db7558 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -53,6 +53,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 	char*  smat;
 
 	float* temp = (float*)malloc(sizeof(float)*bands);
+	hypercv_assert(temp != NULL, "malloc fail");
 
 	for (int i = 0; i < lines; i++)
 	{
@@ -116,6 +117,7 @@ float* read_spectrum_file(const char* sp_path, int length)
 	hypercv_assert(fp != NULL, "can not open files");
 
 	float* spectrum = (float*)calloc(length, sizeof(float));
+	hypercv_assert(spectrum != NULL, "malloc fail");
 
 	float* sp = spectrum;
 
-- 
2.43.0


From 6038f5f4a29af031b8f35f38b30b5bffd45c299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 086/119] fix: CEM checks that memory was allocated

---
 modules/algorithm/src/cem.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 345329d..cab62f9 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -42,6 +42,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	float* fir1 = (float*)calloc(bands, sizeof(float));
 	float* fir2 = (float*)calloc(bands, sizeof(float));
 	float* fir3 = (float*)calloc(1, sizeof(float));
+	hypercv_assert(fir1 != NULL && fir2 != NULL && fir3 != NULL, "malloc fail");
 
 	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
 	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
-- 
2.43.0


From 1ac0459110dcf16542dcf20e421eefdd32cda620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 087/119] fix: k-means checks that memory was allocated

---
 modules/algorithm/src/cluster.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index b7f94dc..e76c041 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -39,6 +39,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	long long (*v2)[2] = malloc(kind * sizeof(*v2)); 
 
 	int* num = (int*)malloc(kind * sizeof(int));	
+	hypercv_assert(v2 != NULL && num != NULL, "malloc fail");
  
 	srand((unsigned)time(NULL));
 
-- 
2.43.0


From e4ea8eeebd8346bf572bc3b9e67d088016e23a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 088/119] fix: PCA checks that memory was allocated

---
 modules/algorithm/src/pca.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 4f8e7be..a783113 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -61,6 +61,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	}
 	//计算特征值，特征向量
 	float* evalue = (float*)malloc(bands*sizeof(float));
+	hypercv_assert(evalue != NULL, "malloc fail");
 
 	for(int k=0;k<bands;k++)
 		evalue[k] = ((float*)temp->data)[k*bands+k];
-- 
2.43.0


From aa34f81f7cf4dcd2091bf9173815606e591a89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 089/119] fix: shape match checks that memory was allocated

---
 modules/algorithm/src/shapematch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index ef26ccd..c433ba4 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -108,6 +108,7 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double* hu1 = (double*)malloc(7*sizeof(double));
 	double* hu2 = (double*)malloc(7*sizeof(double));
+	hypercv_assert(hu1 != NULL && hu2 != NULL, "malloc fail");
 
 	calc_hu_moment(hu1,mat1);
 	calc_hu_moment(hu2,mat2);
-- 
2.43.0


From 70ea9894faca2924bc2a75fb514b1f6539afc14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 090/119] fix: saving a cube or header checks that it was
 written completely

---
 modules/core/src/c_src/hypermat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 778e169..1c2b179 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -323,9 +323,10 @@ void hmsave(const char* image_path, hyper_mat mat)
 	FILE* image_fp;
 	image_fp = fopen(image_path, "wb");
 	hypercv_assert(image_fp != NULL, "can not open files");
-	fwrite(mat->data, elemsize, samples * lines * bands, image_fp);
+	size_t data_size = (size_t)samples * lines * bands;
+	size_t written = fwrite(mat->data, elemsize, data_size, image_fp);
+	hypercv_assert(fclose(image_fp) == 0 && written == data_size, "can not write image file");
 	writehdr(image_path, samples, lines, bands, mat->data_type, mat->interleave,mat->wavelength);
-	fclose(image_fp);
 
 }
 
@@ -392,7 +393,8 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	{
 		fputs("wavelength = unknown \n",fp);
 	}
-	fclose(fp);
+	int failed = ferror(fp);
+	hypercv_assert(fclose(fp) == 0 && !failed, "can not write hdr file");
 }
 
 
-- 
2.43.0


From 6bb48359cd42bda0d58fa073b87d44ec6160556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 091/119] fix: saving a bitmap checks that it was written
 completely

---
 modules/core/src/c_src/simplemat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 1285ac7..2b81d12 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -238,7 +238,8 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	}
 
 	free(line);
-	fclose(fp);
+	int failed = ferror(fp);
+	hypercv_assert(fclose(fp) == 0 && !failed, "can not write bmp file");
 
 	if(mat != src_mat)
 		delete_simple_mat(mat);
-- 
2.43.0


From 2f93c3144ff212aa7fa9b03c477d26ea90d95178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 092/119] fix: C++ save checks that the files were opened and
 written completely

---
 modules/core/include/cxx_include/hypermat.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index f8331ca..8434b07 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -255,14 +255,11 @@ namespace hypercv
 
 		FILE* _fp;
 		_fp = fopen(filePath, "wb");
-		if(_fp == NULL)
-		{
-			return;
-			printf("can not open files\n");
-		}
-		fwrite(data, elemSize, samples * lines * bands, _fp);
+		hypercv_assert(_fp != NULL, "can not open files");
+		size_t count = (size_t)samples * lines * bands;
+		size_t written = fwrite(data, elemSize, count, _fp);
+		hypercv_assert(fclose(_fp) == 0 && written == count, "can not write image file");
 		this->writeHdr(filePath);
-		fclose(_fp);
 
 	}
 
@@ -277,6 +274,7 @@ namespace hypercv
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
+		hypercv_assert(fp != NULL, "can not open hdr file");
 
 		fputs("ENVI\n", fp);
 		fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
@@ -296,7 +294,8 @@ namespace hypercv
 		{
 			fputs("wavelength = unknown \n",fp);
 		}
-		fclose(fp);
+		int failed = ferror(fp);
+		hypercv_assert(fclose(fp) == 0 && !failed, "can not write hdr file");
 	}
 
 	inline void HyMat::open(const char* imagePath, const char* hdrPath)
-- 
2.43.0


From 9dad50b4a0f2eb1dcf9100902f39a00590065deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 093/119] fix: a structuring element whose size exceeds int is
 rejected

---
 modules/core/src/c_src/struct_2D.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 14588ab..6ce6f0b 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -14,6 +14,7 @@
 S_2D create_2D_struct(int width, int height)
 {
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
+	hypercv_assert((double)width * height <= INT_MAX, "2D struct's size out of range");
 	
 	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
 	hypercv_assert(data != NULL, "malloc fail");
-- 
2.43.0


From eaf9fd9d9a54c6d93d9dfc8cd1eef8f3223ee86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 094/119] fix: a shown image is painted at once, not when an
 uninitialised flag happens to be set

---
 modules/highgui/src/smshow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/highgui/src/smshow.c b/modules/highgui/src/smshow.c
index aadbc63..4228a8f 100644
--- a/modules/highgui/src/smshow.c
+++ b/modules/highgui/src/smshow.c
@@ -13,7 +13,7 @@ void smshow(const char* display_name, simple_mat mat)
 	Uint32 flags = SDL_SWSURFACE;
 	//SDL_Init(flags);
 	SDL_Surface *screen, *image;
-	int depth,done,dirty;
+	int depth,done,dirty=1;
 	SDL_Event event;
 	SDL_Rect src = {0, 0, 0, 0};
 
-- 
2.43.0


From 644edcc34856f10be725721dc50eb2bdc2df8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 095/119] fix: gray images are shown in gray instead of with an
 empty palette

---
 modules/highgui/src/smshow.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/highgui/src/smshow.c b/modules/highgui/src/smshow.c
index 4228a8f..3961036 100644
--- a/modules/highgui/src/smshow.c
+++ b/modules/highgui/src/smshow.c
@@ -34,6 +34,14 @@ void smshow(const char* display_name, simple_mat mat)
 		return;
 	}
 	
+	if (image->format->palette)
+	{
+		SDL_Color gray[256];
+		for(int i=0;i<256;i++)
+			gray[i].r = gray[i].g = gray[i].b = i;
+		SDL_SetColors(image, gray, 0, 256);
+	}
+
 	src.w = image->w;
 	src.h = image->h;
 
-- 
2.43.0


From 630ada2c857db9789fc70ae4879c9004c53ad0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 096/119] fix: a satellite orbit is allocated before it is
 written

---
 modules/satellite/src/satellite_orbit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index 7ee8954..7267c28 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -43,7 +43,9 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 		long double cic,
 		long double omegadot)
 {
-	sat_orbit orb;
+	sat_orbit orb = (sat_orbit)malloc(sizeof(SATELLITE_ORBIT));
+	hypercv_assert(orb != NULL, "malloc fail");
+
 	orb->as = as;
 	orb->es = es;
 	orb->omega = omega;
-- 
2.43.0


From bc0ee4cc8d0a65f9a30b2c836c554a70350247d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 097/119] fix: the time since the reference epoch of an orbit
 is computed before it is used

---
 modules/satellite/src/satellite_orbit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index 7267c28..4194a88 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -64,6 +64,8 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 	orb->cic = cic;
 	orb->omegadot = omegadot;
 
+	orb->tk = orb->t - orb->toe;
+
 	orb->n0 = sqrt(bGM84 / (as*as*as));
 	orb->n = orb->n0 + orb->delta_n;
 
-- 
2.43.0


From afe4226d1658f4d367bb1e422e4c5fe3cbc36626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 098/119] fix: the solution of Kepler's equation starts from
 the mean anomaly

---
 modules/satellite/src/satellite_orbit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index 4194a88..f3c0be8 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -71,6 +71,7 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 
 	orb->Mk = orb->M0 + orb->n*orb->tk;
 
+	orb->E = orb->Mk;
 	for (int i = 0; i < 10; i++)
 		orb->E = orb->Mk + orb->es*sin(orb->E);
 
-- 
2.43.0


From 163a1a40e4f2e2b2e866d344749156f8788f5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 099/119] fix: the true anomaly is computed from the tangent of
 half the eccentric anomaly

---
 modules/satellite/src/satellite_orbit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index f3c0be8..ef60896 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -75,7 +75,7 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 	for (int i = 0; i < 10; i++)
 		orb->E = orb->Mk + orb->es*sin(orb->E);
 
-	orb->f = 2 * atan(sqrt((1 + orb->es) / (1 - orb->es))* (tan(orb->E)) / 2);
+	orb->f = 2 * atan(sqrt((1 + orb->es) / (1 - orb->es))* tan(orb->E / 2));
 
 	orb->phik = orb->f + orb->ws;
 
-- 
2.43.0


From 75a41b16996fd5a4b3c6bd275b03aea79581fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 100/119] fix: an unknown wavelet is rejected

---
 modules/process/src/c_src/dwt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index 90063bc..e07b766 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -118,7 +118,7 @@ void wt_info_free(wt_info* wt_if)
 
 wavelet_base* set_wavelet_base(int wave_type)
 {
-	hypercv_assert(wave_type!=HYPERCV_WAVE_DB3||wave_type!=HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
+	hypercv_assert(wave_type==HYPERCV_WAVE_DB3||wave_type==HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
 	wavelet_base *wb;
 	wb = (wavelet_base*) calloc(1,sizeof(wavelet_base));
 	
-- 
2.43.0


From 85b7f11b4ac8fee35e02b73ac1215277d475a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 101/119] fix: norms of large images are summed in double

---
 modules/algorithm/src/normalize.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 87dfae1..a839047 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -41,7 +41,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 
 	if(norm_type == NORM_L1)
 	{
-		float L1_norm = 0;
+		double L1_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
@@ -49,7 +49,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	}
 	if(norm_type == NORM_L2)
 	{
-		float L2_norm = 0;
+		double L2_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
@@ -95,7 +95,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 
 	if(norm_type == NORM_L1)
 	{
-		float L1_norm = 0;
+		double L1_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
@@ -103,7 +103,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	}
 	if(norm_type == NORM_L2)
 	{
-		float L2_norm = 0;
+		double L2_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
-- 
2.43.0


From 476be0b6fd4fa403b53377501b08bc919546d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 102/119] fix: the contrast of a large image is summed in
 double

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 2b81d12..1757c85 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -414,7 +414,7 @@ float simple_mat_contrast_ratio(simple_mat mat)
 
 	unsigned char* data = (unsigned char*)tmp->data;
 
-	float res =0.0;
+	double res =0.0;
 	for(int i=0; i<rows; i++)
 	{
 		for(int j=0; j<cols; j++)
-- 
2.43.0


From 36fc87fb0be9e5b347f1bb5c83500570681d73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 103/119] fix: the edge energy of a large image is summed in
 double

---
 modules/algorithm/src/EdgeSignalEnergy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index d1d5c83..43522de 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -34,7 +34,7 @@ float cal_edge_signal_energy(simple_mat mat)
 
 	float* res_data = (float*)dst1->data;
 
-	float r = 0.0;
+	double r = 0.0;
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			r+=pow(res_data[i*cols+j],2);
-- 
2.43.0


From f7dab6d80fc77cdf9faa8ed8cef5ae4fe21f44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 104/119] fix: means of long vectors are summed in double

---
 modules/process/src/c_src/mathprocess.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 103a851..8bd3b7c 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -28,7 +28,7 @@ double mean_double(double* t,int len)
  **/
 float mean_uint(unsigned int * t,int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -42,7 +42,7 @@ float mean_uint(unsigned int * t,int len)
  **/
 float mean_short(short *t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -56,7 +56,7 @@ float mean_short(short *t, int len)
  **/
 float mean_ushort(unsigned short* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -70,7 +70,7 @@ float mean_ushort(unsigned short* t, int len)
  **/
 float mean_float(float* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -84,7 +84,7 @@ float mean_float(float* t, int len)
  **/
 float mean_uchar(unsigned char* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -98,7 +98,7 @@ float mean_uchar(unsigned char* t, int len)
  **/
 float mean_char(char* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -112,7 +112,7 @@ float mean_char(char* t, int len)
  **/
 float mean_int(int *t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
-- 
2.43.0


From 5b5c3abdd9d9529077292dda760b6f2902f75650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 105/119] fix: a layout in capitals in a header is understood

---
 modules/core/src/c_src/hypermat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 1c2b179..4c42364 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -5,6 +5,7 @@
 	> Created Time: 2020年01月08日 星期三 22时35分36秒
  ************************************************************************/
 #include "precomp.h"
+#include <ctype.h>
 
 #ifndef MAXLINE
 #define MAXLINE 10000 //each line no more than 10000 words
@@ -109,6 +110,8 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		else if (cmpstr(item, "interleave") == 1)
 		{
 			sscanf(line, "%*[^=]= %3s", interleave);
+			for(int i=0; i<3; i++)
+				interleave[i] = tolower(interleave[i]);
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-- 
2.43.0


From 0f5e8ff3587791475e4f33e5da15a2015ebc647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 106/119] fix: HyMat headers: the layout and wavelengths are
 taken from their fields only, capitals included

---
 modules/core/src/cxx_src/hypermat.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 71e492c..a174e1e 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -76,16 +76,18 @@ namespace hypercv
 			else if (cmpstr(item, (char*)"data type") == 1)
 				sscanf(line, "%*[^=]=%d", &dataType);
 
-			else if (lineBuff.find("interleave")!=lineBuff.npos)
+			else if (cmpstr(item, (char*)"interleave") == 1)
 			{
-				if(lineBuff.find("q")!=lineBuff.npos)
+				char value[4] = "";
+				sscanf(line, "%*[^=]= %3s", value);
+				if(value[2] == 'q' || value[2] == 'Q')
 					format = HYPERCV_BSQ;
-				else if(lineBuff.find("p")!=lineBuff.npos)
+				else if(value[2] == 'p' || value[2] == 'P')
 					format = HYPERCV_BIP;
 				else 
 					format = HYPERCV_BIL;
 			}
-			else if (lineBuff.find("wavelength = {")!=lineBuff.npos)
+			else if (lineBuff.find("wavelength = {") == 0)
 			{	
 				do
 				{
-- 
2.43.0


From 9c6e30496a98f76f6fdcafc9cf29504a4612b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 107/119] fix: vector_erase takes the index before it changes
 the size

---
 modules/core/include/c_include/vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 5368492..e8ea9ad 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -93,10 +93,11 @@
 	do {                                                   \
 		if (vec) {                                         \
 			const size_t __sz = vector_size(vec);          \
-			if ((i) < __sz) {                              \
+			const size_t __i = (i);                        \
+			if (__i < __sz) {                              \
 				vector_set_size((vec), __sz - 1);          \
 				size_t __x;                                \
-				for (__x = (i); __x < (__sz - 1); ++__x) { \
+				for (__x = __i; __x < (__sz - 1); ++__x) { \
 					(vec)[__x] = (vec)[__x + 1];           \
 				}                                          \
 			}                                              \
-- 
2.43.0


From 86913f568001db13589aaf6f2571040731dbafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 108/119] fix: the vector macros accept any expression for the
 vector and the size

---
 modules/core/include/c_include/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index e8ea9ad..8e393ab 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -148,7 +148,7 @@
 		if(__cap <= vector_size(vec)) {                         \
 			vector_grow((vec), !__cap ? __cap + 1 : __cap * 2); \
 		}                                                       \
-		vec[vector_size(vec)] = (value);                        \
+		(vec)[vector_size(vec)] = (value);                      \
 		vector_set_size((vec), vector_size(vec) + 1);           \
 	} while(0)
 /*
@@ -172,7 +172,7 @@ vector_set_size((vec), vector_size(vec) + 1); \
 		size_t __temp_iter = 0;                       \
 		if(size)                                      \
 		{                                             \
-			while(__temp_iter<size)                   \
+			while(__temp_iter<(size_t)(size))         \
 			{                                         \
 				vector_push_back(vec,value);          \
 				__temp_iter++;                        \
-- 
2.43.0


From 6e65f61a2618ace153120297acab98d03ef5d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:54 +0000
Subject: [PATCH 109/119] fix: spectral angle and distance hold for very small
 and very large spectra

---
 modules/process/src/c_src/spectralprocess.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 2db7558..767ea07 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -88,15 +88,15 @@ float spectral_angle_mapper(float * x, float * y, int length)
 {
 	hypercv_assert(x != NULL && y != NULL, "spectral angle mapper input must not be NULL");
 
-	float XY = 0.0, X = 0.0, Y = 0.0;
+	double XY = 0.0, X = 0.0, Y = 0.0;
 
 	float res = 0.0;
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += fabs(x[i] * y[i]);
-		X += (x[i])*(x[i]);
-		Y += (y[i])*(y[i]);
+		XY += fabs((double)x[i] * y[i]);
+		X += (double)x[i]*x[i];
+		Y += (double)y[i]*y[i];
 	}
 
 	res = acos(fmin(XY / sqrt(X*Y), 1.0));
@@ -141,10 +141,10 @@ float* read_spectrum_file(const char* sp_path, int length)
  **/
 float euclidean_distance(float * x, float * y, int length)
 {
-	float temp = 0;
+	double temp = 0;
 
 	for (int i = 0; i<length; i++)
-		temp += (x[i] - y[i])*(x[i] - y[i]);
+		temp += ((double)x[i] - y[i])*((double)x[i] - y[i]);
 
 	temp = sqrt(temp);
 
-- 
2.43.0


From 02bebc293a564ae8ec54e6565613e466bc0db647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:54 +0000
Subject: [PATCH 110/119] fix: the norm holds for very small and very large
 vectors

---
 modules/process/src/c_src/matrixprocess.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index d663c8e..ef2359b 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -214,10 +214,10 @@ void TransMatrix_uint(unsigned int *x, unsigned int *z, int m, int n)
 
 float matrix_norm_float(float* m,int size)
 {
-	float ans = 0.0;
+	double ans = 0.0;
 	for(int i=0;i<size;i++)
-		ans+=m[i]*m[i];
-	ans = (float)sqrt(ans);
+		ans+=(double)m[i]*m[i];
+	ans = sqrt(ans);
 	return ans;
 }
 
-- 
2.43.0


From 65511edd4580632260c68f45010412c1b8fbed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:34 +0000
Subject: [PATCH 111/119] fix: the eccentric anomaly is iterated until it
 solves Kepler's equation

---
 modules/satellite/src/satellite_orbit.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index ef60896..3fcc847 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -72,8 +72,12 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 	orb->Mk = orb->M0 + orb->n*orb->tk;
 
 	orb->E = orb->Mk;
-	for (int i = 0; i < 10; i++)
+	long double last = orb->E + 1;
+	for (int i = 0; i < 1000 && fabsl(orb->E - last) > 1e-15L; i++)
+	{
+		last = orb->E;
 		orb->E = orb->Mk + orb->es*sin(orb->E);
+	}
 
 	orb->f = 2 * atan(sqrt((1 + orb->es) / (1 - orb->es))* tan(orb->E / 2));
 
-- 
2.43.0


From b6de88029bce6e0314b40e7ceb6dacd0c83fdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:25 +0000
Subject: [PATCH 112/119] fix: normalising covers all channels of an image

---
 modules/algorithm/src/normalize.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index a839047..c31df89 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -18,7 +18,7 @@
 void hypercv_normalize(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
 {
     hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
-	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols&&dst->channels==src->channels,"src size == dst size");
 
 	if(src->data_type == 1)
 		hypercv_normalize_uchar(src, dst, alpha, beta, norm_type);
@@ -29,9 +29,9 @@ void hypercv_normalize(simple_mat src, simple_mat dst, float alpha, float beta,
 void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
-	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols&&dst->channels==src->channels,"src size == dst size");
 	int rows = src->rows;
-	int cols = src->cols;
+	int cols = src->cols*src->channels;
 	int data_type = src->data_type;
 	int channels = src->channels;
 
@@ -84,9 +84,9 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
-	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols&&dst->channels==src->channels,"src size == dst size");
 	int rows = src->rows;
-	int cols = src->cols;
+	int cols = src->cols*src->channels;
 	int data_type = src->data_type;
 	int channels = src->channels;
 
-- 
2.43.0


From ea717bada97761621ed323ac6eb3578266c9c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:08 +0000
Subject: [PATCH 113/119] fix: running out of memory for a wavelet basis is
 reported

---
 modules/process/src/c_src/dwt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index e07b766..7a6f85a 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -27,8 +27,7 @@ static double* SerialReverse(double * src, int len)
 	double * result = NULL;
 
 	result = (double *) calloc(len, sizeof(double));
-	if (!result)
-		exit(1);
+	hypercv_assert(result != NULL, "malloc fail");
 
 	for (i = 0; i < len; i++)
 		result[i] = src[len-i-1];
@@ -121,6 +120,7 @@ wavelet_base* set_wavelet_base(int wave_type)
 	hypercv_assert(wave_type==HYPERCV_WAVE_DB3||wave_type==HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
 	wavelet_base *wb;
 	wb = (wavelet_base*) calloc(1,sizeof(wavelet_base));
+	hypercv_assert(wb != NULL, "malloc fail");
 	
 	switch(wave_type)
 	{
-- 
2.43.0


From 7cfe2bf43cb0c20196c0157adfeee47904e0fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 114/119] fix: the wavelengths of a header may have any spaces
 around the equals sign

---
 modules/core/src/c_src/hypermat.c     | 10 +++++++++-
 modules/core/src/cxx_src/hypermat.cpp |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 4c42364..4bbda0b 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -31,6 +31,14 @@ int cmpstr(char temp1[],char temp2[])
 
 }
 
+// private function purpose to find the line the wavelengths start on
+static int is_wavelength(const char* line)
+{
+	int end = 0;
+	sscanf(line, "wavelength = {%n", &end);
+	return end > 0;
+}
+
 // private function purpose to read wavelength from hdr file
 // w holds the text between the braces, missing wavelengths are 0
 static void read_wavelength(const char* w, float* wavelength, int bands)
@@ -113,7 +121,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			for(int i=0; i<3; i++)
 				interleave[i] = tolower(interleave[i]);
 		}
-		else if (cmpstr(line,"wavelength = {")==1)
+		else if (is_wavelength(line))
 		{	
 			char* part = strchr(line, '{');
 			size_t len = 0;
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index a174e1e..85bab1e 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -62,7 +62,9 @@ namespace hypercv
 		{  
 			const char* line = lineBuff.c_str();
 			char item[20] = "";
+			int list = 0;
 			sscanf(line, "%19[^=]", item);
+			sscanf(line, "wavelength = {%n", &list);
 
 			if (cmpstr(item, (char*)"samples") == 1)
 				sscanf(line, "%*[^=]=%d",&samples);
@@ -87,7 +89,7 @@ namespace hypercv
 				else 
 					format = HYPERCV_BIL;
 			}
-			else if (lineBuff.find("wavelength = {") == 0)
+			else if (list > 0)
 			{	
 				do
 				{
-- 
2.43.0


From 4179b25eb4063ddb2a1ed6e8fb264e1f9ca9cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:13 +0000
Subject: [PATCH 115/119] fix: text in braces and long lines of other fields of
 a header are not taken for its fields

---
 modules/core/src/c_src/hypermat.c     | 9 +++++++++
 modules/core/src/cxx_src/hypermat.cpp | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 4bbda0b..5dc95c8 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -136,6 +136,15 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 				part = strchr(part, '}') == NULL ? fgets(line, MAXLINE, hdr_fp) : NULL;
 			}
 		}
+		else
+		{
+			// the value in braces or the long line of another field
+			char* brace = line[0] != ';' && strchr(line, '=') != NULL ? strchr(line, '{') : NULL;
+			int open = brace != NULL && strchr(brace, '}') == NULL;
+
+			while ((open || strchr(line, '\n') == NULL) && fgets(line, MAXLINE, hdr_fp) != 0)
+				open = open && strchr(line, '}') == NULL;
+		}
 	}
 
 	if(wave_text != NULL && bandtemp > 0)
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 85bab1e..6deff3f 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -101,6 +101,12 @@ namespace hypercv
 				}
 				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
 			}
+			else if (line[0] != ';' && lineBuff.find('=') != lineBuff.npos && lineBuff.find('{') != lineBuff.npos)
+			{	// the value in braces of another field
+				size_t from = lineBuff.find('{');
+				while(lineBuff.find('}',from)==lineBuff.npos&&getline(file,lineBuff))
+					from = 0;
+			}
 		}
 
 		file.close();
-- 
2.43.0


From d0647dc551a0ef747d071e93d7b2300bf81a26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 116/119] fix: digits in the text after a number with decimals
 and exponent are not taken for its exponent

---
 modules/process/src/c_src/datatypechange.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index 542dd6c..e83e789 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -457,6 +457,7 @@ float hypercv_atof(const char *str)
 		for (; *p; p++)
 			if (isdigit(*p))
 				exponential = 10 * exponential + *p - '0';
+			else break;
 	return sign * (integerPart * pow(10, expSign * exponential) + decimalPart);
 
 }
-- 
2.43.0


From 10235c7b79876d22f77587fdb5c0a495581d7bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:05 +0000
Subject: [PATCH 117/119] fix: QR decomposition writes the zeros below the
 diagonal of R

---
 modules/process/src/c_src/matrixprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index ef2359b..7c0901c 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -245,6 +245,8 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 
 		float tmp = matrix_norm_float(col_q,m);
 		r[j*m+j] = tmp;
+		for(int k=j+1;k<m;k++)
+			r[k*m+j] = 0;
 		for(int i = 0;i<m;i++)
 			q[i*m+j] = col_q[i]/tmp;
 	}
-- 
2.43.0


From ba88c103d5b8ec00ee93e8079a447b8ac032a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:58 +0000
Subject: [PATCH 118/119] fix: a matrix product does not add to what its
 destination held

---
 modules/process/src/c_src/matrixprocess.c | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 7c0901c..bf9962a 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -12,8 +12,11 @@ void MulMatrix_char(char *x,char *y,char*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -26,8 +29,11 @@ void MulMatrix_uchar(unsigned char *x,unsigned char *y, unsigned char*z, int m,i
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -40,8 +46,11 @@ void MulMatrix_short(short *x,short *y,short*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -54,8 +63,11 @@ void MulMatrix_ushort(unsigned short *x,unsigned short *y,unsigned short *z, int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //矩阵乘法
@@ -69,8 +81,11 @@ void MulMatrix_int(int *x,int *y,int*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -83,8 +98,11 @@ void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -97,8 +115,11 @@ void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -111,8 +132,11 @@ void MulMatrix_double(double *x, double *y, double*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //距阵转置
-- 
2.43.0


From 33b5e876406b66d7b13b7a40b6e4955ebd53b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:03 +0000
Subject: [PATCH 119/119] fix: the L2 normalisation holds for very small and
 very large elements

---
 modules/algorithm/src/normalize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index c31df89..f299997 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -105,7 +105,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	{
 		double L2_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			L2_norm += src_data[i]*src_data[i];
+			L2_norm += (double)src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
 			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
-- 
2.43.0

