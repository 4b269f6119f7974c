From 463e2decd4f2684948002f12e6b8cb11390c5949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 1/6] fix: IIR SSE downsampler read 8 bytes beyond the input
 block

The last _mm_loadu_ps of a block loaded four floats although only two input
samples belong to the output sample. Load exactly two.
---
 include/pandaresampler/hiir/Downsampler2xSse.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be91346..0b8c781 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -109,7 +109,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
@@ -145,7 +145,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
@@ -180,7 +180,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -228,7 +228,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
-- 
2.43.0


From c2e9c7594870199c8a062951181b28ed95772c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 2/6] fix: SSE IIR filters with odd coefficient count never
 forgot rounding errors

The unused lane of the last stage was an allpass with a coefficient of 1, that
is a pole/zero pair at -1: rounding errors in it stayed in the state forever,
as an undecaying Nyquist oscillation. Pass the lane through instead, like the
FPU version does (SSE and FPU output are now identical).
---
 include/pandaresampler/hiir/Downsampler2xSse.hpp | 8 ++++----
 include/pandaresampler/hiir/StageProcSseV2.h     | 3 +++
 include/pandaresampler/hiir/StageProcSseV2.hpp   | 7 +++++++
 include/pandaresampler/hiir/Upsampler2xSse.hpp   | 4 ++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index 0b8c781..f89ac25 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -110,7 +110,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 	assert (in_ptr != nullptr);
 
 	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	StageProcSseV2 <_nbr_stages>::template process_sample_pos <(NBR_COEFS & 1) != 0> (x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
 
@@ -146,7 +146,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		StageProcSseV2 <_nbr_stages>::template process_sample_pos <(NBR_COEFS & 1) != 0> (x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
 		out_ptr [pos] = _mm_cvtss_f32 (x);
@@ -181,7 +181,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 	assert (in_ptr != nullptr);
 
 	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	StageProcSseV2 <_nbr_stages>::template process_sample_pos <(NBR_COEFS & 1) != 0> (x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
 	low  = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -229,7 +229,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		StageProcSseV2 <_nbr_stages>::template process_sample_pos <(NBR_COEFS & 1) != 0> (x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
 		out_l_ptr [pos] = _mm_cvtss_f32 (_mm_add_ss (xr, x));
diff --git a/include/pandaresampler/hiir/StageProcSseV2.h b/include/pandaresampler/hiir/StageProcSseV2.h
index 33bf828..5003628 100644
--- a/include/pandaresampler/hiir/StageProcSseV2.h
+++ b/include/pandaresampler/hiir/StageProcSseV2.h
@@ -49,6 +49,9 @@ class StageProcSseV2
 
 public:
 
+	// ODD_FLAG: the last stage has a single coefficient, so its first lane has
+	// no filter and must pass its input through
+	template <bool ODD_FLAG>
 	static hiir_FORCEINLINE void
 	               process_sample_pos (__m128 &x, StageDataSse *stage_arr);
 	static hiir_FORCEINLINE void
diff --git a/include/pandaresampler/hiir/StageProcSseV2.hpp b/include/pandaresampler/hiir/StageProcSseV2.hpp
index df31cea..d2554c5 100644
--- a/include/pandaresampler/hiir/StageProcSseV2.hpp
+++ b/include/pandaresampler/hiir/StageProcSseV2.hpp
@@ -36,9 +36,16 @@ namespace hiir
 
 
 template <int CUR>
+template <bool ODD_FLAG>
 void  StageProcSseV2 <CUR>::process_sample_pos (__m128 &x, StageDataSse *stage_arr)
 {
   StageProcSseV2 <CUR>::process_sample_pos_rec (x, stage_arr);
+	if (ODD_FLAG)
+	{
+		// Running the empty lane with a coefficient of 1 would be an allpass
+		// with pole and zero at -1, which keeps its rounding errors forever.
+		x = _mm_move_ss (x, _mm_load_ps (stage_arr [CUR - 1]._mem));
+	}
 	_mm_store_ps (stage_arr [CUR]._mem, x);
 }
 
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.hpp b/include/pandaresampler/hiir/Upsampler2xSse.hpp
index 0b72838..141f701 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Upsampler2xSse.hpp
@@ -113,7 +113,7 @@ template <int NC>
 void	Upsampler2xSse <NC>::process_sample (float &out_0, float &out_1, float input)
 {
 	auto           x = _mm_set1_ps (input);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	StageProcSseV2 <_nbr_stages>::template process_sample_pos <(NBR_COEFS & 1) != 0> (x, &_filter [0]);
 	out_1 = _mm_cvtss_f32 (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	out_0 = _mm_cvtss_f32 (x);
@@ -150,7 +150,7 @@ void	Upsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr []
 		process_sample (out_ptr [pos * 2], out_ptr [pos * 2 + 1], in_ptr [pos]);
 #else
 	auto           x = _mm_set1_ps (in_ptr [pos]);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	StageProcSseV2 <_nbr_stages>::template process_sample_pos <(NBR_COEFS & 1) != 0> (x, &_filter [0]);
 	x = _mm_shuffle_ps (x, x, 1);
 	_mm_storel_pi (reinterpret_cast <__m64 *> (out_ptr + pos * 2), x);
 #endif
-- 
2.43.0


From 772f9cda68a0269b7eee0ff9364b7e2eddcf9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 3/6] fix: allow empty blocks for IIR resamplers

The hiir block functions require at least one sample (assertion failure,
out of bounds access if assertions are disabled); FIR accepts empty blocks.
---
 include/pandaresampler/pandaresampler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index ae6bbd1..aefd57c 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -1086,7 +1086,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir doesn't support empty blocks */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1123,7 +1124,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir doesn't support empty blocks */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
@@ -1163,7 +1165,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir doesn't support empty blocks */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1200,7 +1203,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir doesn't support empty blocks */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
-- 
2.43.0


From fe6622065f05987d99027dffca6c6f4b7b101fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 4/6] fix: order() and sse_enabled() dereferenced a null
 pointer for ratio 1

---
 include/pandaresampler.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7fba41..1603b39 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -255,6 +255,8 @@ public:
   uint
   order() const
   {
+    if (ratio_ == 1) // no filter
+      return 0;
     return impl_x2->order(); // FIXME
   }
   /**
@@ -312,6 +314,8 @@ public:
   bool
   sse_enabled() const
   {
+    if (ratio_ == 1) // no filter
+      return false;
     return impl_x2->sse_enabled();
   }
 protected:
-- 
2.43.0


From 0c66ab6aa6c8d531d09ddd7e49dac4eb7aaf01be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 5/6] fix: copying an AlignedArray caused a double free

The implicit copy constructor and assignment shared the memory.
---
 include/pandaresampler.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 1603b39..f62c613 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -75,6 +75,8 @@ public:
   {
     std::copy (elements.begin(), elements.end(), data);
   }
+  AlignedArray (const AlignedArray&) = delete; /* owns its memory */
+  AlignedArray& operator= (const AlignedArray&) = delete;
   ~AlignedArray()
   {
     /* C++ destruction order: last allocated element is deleted first */
-- 
2.43.0


From c70457333434a78908ecff6f50b66d559bb5a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 6/6] fix: FIR upsampler wrote to wrapped output index for
 blocks >= 2^31 samples

2 * i was computed modulo 2^32.
---
 include/pandaresampler/pandaresampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index aefd57c..490a57f 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -388,7 +388,7 @@ protected:
                          uint         n_input_samples,
 			 float       *output)
   {
-    uint i = 0;
+    size_t i = 0; /* 2 * i may exceed the range of uint */
     if (USE_SSE)
       {
         /* (i + 6) -> need to take into account that the filter needs to access
@@ -412,7 +412,7 @@ protected:
                            uint         n_input_samples,
 			   float       *output)
   {
-    uint i = 0;
+    size_t i = 0; /* 2 * i may exceed the range of uint */
     if (USE_SSE)
       {
 	while ((reinterpret_cast<ptrdiff_t> (&input[i]) & 15) && i < n_input_samples)
-- 
2.43.0

