From 2081014a4fa2d856a15ee3a378ebc6e0be2e75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 01/12] fix: do not read past the end of the input in the SSE
 IIR downsampler

The kernel loaded four floats for each pair of input samples, so the last pair
of a block read 8 bytes beyond the input buffer.
---
 .../pandaresampler/hiir/Downsampler2xSse.h    |  3 +++
 .../pandaresampler/hiir/Downsampler2xSse.hpp  | 20 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.h b/include/pandaresampler/hiir/Downsampler2xSse.h
index 7935fe5..44f6b12 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.h
+++ b/include/pandaresampler/hiir/Downsampler2xSse.h
@@ -100,6 +100,9 @@ private:
 	// Stage 0 contains only input memory
 	typedef std::array <StageDataSse, _nbr_stages + 1> Filter;
 
+	static hiir_FORCEINLINE __m128
+	               load_pair (const float in_ptr [2]);
+
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
 
diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be91346..95500eb 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -109,7 +109,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = load_pair (in_ptr);
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
@@ -145,7 +145,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = load_pair (in_ptr + pos * 2);
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
@@ -180,7 +180,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = load_pair (in_ptr);
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -228,7 +228,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = load_pair (in_ptr + pos * 2);
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -268,6 +268,18 @@ void	Downsampler2xSse <NC>::clear_buffers ()
 
 
 
+// Loads exactly two samples: loading a full vector would read past the end of
+// the input for the last pair.
+template <int NC>
+__m128	Downsampler2xSse <NC>::load_pair (const float in_ptr [2])
+{
+	return _mm_loadl_pi (
+		_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr)
+	);
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
-- 
2.43.0


From 92445a57ac578dc12e95a25ab3053ab6542b0d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 02/12] fix: do not accumulate rounding errors in the SSE IIR
 filters

With an odd number of coefficients the unused section of the last stage was run
with a coefficient of 1. It is transparent in exact arithmetic, but its pole on
the unit circle keeps every rounding error forever: the error of a long stream
grows without limit, and a tone at half the sample rate remains after the input
became silent. Let the signal bypass the unused section instead.
---
 .../pandaresampler/hiir/Downsampler2xSse.h    |  2 ++
 .../pandaresampler/hiir/Downsampler2xSse.hpp  | 28 +++++++++++++------
 include/pandaresampler/hiir/Upsampler2xSse.h  |  3 ++
 .../pandaresampler/hiir/Upsampler2xSse.hpp    | 24 ++++++++++++----
 4 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.h b/include/pandaresampler/hiir/Downsampler2xSse.h
index 44f6b12..0111cdc 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.h
+++ b/include/pandaresampler/hiir/Downsampler2xSse.h
@@ -100,6 +100,8 @@ private:
 	// Stage 0 contains only input memory
 	typedef std::array <StageDataSse, _nbr_stages + 1> Filter;
 
+	hiir_FORCEINLINE void
+	               process_stages (__m128 &x);
 	static hiir_FORCEINLINE __m128
 	               load_pair (const float in_ptr [2]);
 
diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index 95500eb..69c8c48 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -53,10 +53,6 @@ Downsampler2xSse <NC>::Downsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
 
 	clear_buffers ();
 }
@@ -110,7 +106,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 	assert (in_ptr != nullptr);
 
 	auto           x  = load_pair (in_ptr);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
 
@@ -146,7 +142,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = load_pair (in_ptr + pos * 2);
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		process_stages (x);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
 		out_ptr [pos] = _mm_cvtss_f32 (x);
@@ -181,7 +177,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 	assert (in_ptr != nullptr);
 
 	auto           x  = load_pair (in_ptr);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
 	low  = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -229,7 +225,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = load_pair (in_ptr + pos * 2);
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		process_stages (x);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
 		out_l_ptr [pos] = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -268,6 +264,22 @@ void	Downsampler2xSse <NC>::clear_buffers ()
 
 
 
+// Runs x through all the stages. With an odd number of coefficients, the last
+// stage has no section for the odd path, which goes through unchanged. Using a
+// section with a coefficient of 1 there would accumulate the rounding errors
+// forever, because its pole is on the unit circle.
+template <int NC>
+void	Downsampler2xSse <NC>::process_stages (__m128 &x)
+{
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		x = _mm_move_ss (x, _mm_load_ss (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 // Loads exactly two samples: loading a full vector would read past the end of
 // the input for the last pair.
 template <int NC>
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.h b/include/pandaresampler/hiir/Upsampler2xSse.h
index 8b026f1..f1523c9 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.h
+++ b/include/pandaresampler/hiir/Upsampler2xSse.h
@@ -98,6 +98,9 @@ private:
 	// Stage 0 contains only input memory
 	typedef std::array <StageDataSse, _nbr_stages + 1> Filter;
 
+	hiir_FORCEINLINE void
+	               process_stages (__m128 &x);
+
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
 
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.hpp b/include/pandaresampler/hiir/Upsampler2xSse.hpp
index 0b72838..cf03657 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Upsampler2xSse.hpp
@@ -56,10 +56,6 @@ Upsampler2xSse <NC>::Upsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
 
 	clear_buffers ();
 }
@@ -113,7 +109,7 @@ template <int NC>
 void	Upsampler2xSse <NC>::process_sample (float &out_0, float &out_1, float input)
 {
 	auto           x = _mm_set1_ps (input);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	out_1 = _mm_cvtss_f32 (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	out_0 = _mm_cvtss_f32 (x);
@@ -150,7 +146,7 @@ void	Upsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr []
 		process_sample (out_ptr [pos * 2], out_ptr [pos * 2 + 1], in_ptr [pos]);
 #else
 	auto           x = _mm_set1_ps (in_ptr [pos]);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	_mm_storel_pi (reinterpret_cast <__m64 *> (out_ptr + pos * 2), x);
 #endif
@@ -188,6 +184,22 @@ void	Upsampler2xSse <NC>::clear_buffers ()
 
 
 
+// Runs x through all the stages. With an odd number of coefficients, the last
+// stage has no section for the odd path, which goes through unchanged. Using a
+// section with a coefficient of 1 there would accumulate the rounding errors
+// forever, because its pole is on the unit circle.
+template <int NC>
+void	Upsampler2xSse <NC>::process_stages (__m128 &x)
+{
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		x = _mm_move_ss (x, _mm_load_ss (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
-- 
2.43.0


From 630b78aa4487367e4f8fb791c3e8143c5a08edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 03/12] fix: allow empty blocks for the IIR filters

The hiir kernels require at least one sample: an empty block failed an assertion
or, without assertions, processed and wrote one sample beyond the buffers.
---
 include/pandaresampler/pandaresampler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index ae6bbd1..e554f30 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -1086,7 +1086,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir needs at least one sample */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1123,7 +1124,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir needs at least one sample */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
@@ -1163,7 +1165,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir needs at least one sample */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1200,7 +1203,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir needs at least one sample */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
-- 
2.43.0


From 8184cc74f74e120f113e154e9bb6867523762ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 04/12] fix: order() and sse_enabled() crashed for ratio 1

There is no filter for ratio 1, so both dereferenced a null pointer.
---
 include/pandaresampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7fba41..c220038 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -255,7 +255,7 @@ public:
   uint
   order() const
   {
-    return impl_x2->order(); // FIXME
+    return impl_x2 ? impl_x2->order() : 0; // FIXME
   }
   /**
    * Return the delay introduced by the resampler. This delay is guaranteed to
@@ -312,7 +312,7 @@ public:
   bool
   sse_enabled() const
   {
-    return impl_x2->sse_enabled();
+    return impl_x2 && impl_x2->sse_enabled();
   }
 protected:
   /* Creates implementation from filter coefficients and Filter implementation class
-- 
2.43.0


From a25c663dad26dd0c7e1f1907707d813f4d71598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 05/12] fix: report when the group delay search did not
 converge

The convergence flag was inverted, so a search which ran out of iterations
returned success with a filter that does not have the requested group delay.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index bf4c479..2a9877c 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -304,12 +304,12 @@ PolyphaseIir2Designer::ResCode	PolyphaseIir2Designer::compute_coefs_spec_order_g
 			}
 
 			++ nbr_it;
-			conv_flag = (fabs (rs_gdly - group_delay) > prec);
+			conv_flag = (fabs (rs_gdly - group_delay) <= prec);
 		}
-		while (conv_flag && nbr_it < max_it);
+		while (! conv_flag && nbr_it < max_it);
 
 		// Checks convergence
-		if (nbr_it >= max_it && ! conv_flag)
+		if (! conv_flag)
 		{
 			ret_val = ResCode_FAIL_CONV;
 		}
-- 
2.43.0


From b53f5af5acf2ff06b3e7d183aa3457097b35df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 06/12] fix: phase delay of a filter cell

compute_phase_delay() evaluated a first order cell with the wrong sign of the
phase, and returned NaN for a frequency of 0. Evaluate the actual cell, which is
a function of z^-2.
---
 .../pandaresampler/hiir/PolyphaseIir2Designer.cpp    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index 2a9877c..416ca7a 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -363,10 +363,14 @@ double	PolyphaseIir2Designer::compute_phase_delay (double a, double f_fs)
 	assert (f_fs < 0.5);
 
 	const double   w  = 2 * hiir::PI * f_fs;
-	const double   c  = cos (w);
-	const double   s  = sin (w);
-	const double   x  = a + c + a * (c * (a + c) + s * s);
-	const double   y  = a * a * s - s;
+	if (w == 0)
+	{
+		return 2 * (1 - a) / (1 + a);
+	}
+
+	// The cell is a function of z^-2: (a + z^-2) / (1 + az^-2)
+	const double   x  = 2 * a + (1 + a * a) * cos (2 * w);
+	const double   y  = (1 - a * a) * sin (2 * w);
 	double         ph = atan2 (y, x);
 	if (ph < 0)
 	{
-- 
2.43.0


From a92ac63ceba00c64e6643f459f185f5c647c1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 07/12] fix: never return a negative number of coefficients

For attenuations below 1 dB the computed order is negative, and so was the
number of coefficients.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index 416ca7a..390ab11 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -496,7 +496,7 @@ int	PolyphaseIir2Designer::compute_order (double attenuation, double q)
 	{
 		++ order;
 	}
-	if (order == 1)
+	if (order < 3)
 	{
 		order = 3;
 	}
-- 
2.43.0


From 28f5a07e7e1fb1f6a7a65ab26567521aae74e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 08/12] fix: copying an AlignedArray freed its memory twice

The implicit copy shared the memory between both arrays, and both freed it.
---
 include/pandaresampler.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c220038..94a11e8 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -75,6 +75,19 @@ public:
   {
     std::copy (elements.begin(), elements.end(), data);
   }
+  AlignedArray (const AlignedArray& other) :
+    AlignedArray (other.n_elements)
+  {
+    std::copy (other.data, other.data + n_elements, data);
+  }
+  AlignedArray&
+  operator= (AlignedArray other)
+  {
+    std::swap (unaligned_mem, other.unaligned_mem);
+    std::swap (data, other.data);
+    std::swap (n_elements, other.n_elements);
+    return *this;
+  }
   ~AlignedArray()
   {
     /* C++ destruction order: last allocated element is deleted first */
-- 
2.43.0


From 30a8ad142be9ae37a3d967c014c0c38306f32db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 09/12] fix: IIR designer missed the specified attenuation for
 narrow transition bands

The power series of the nome q was truncated after four terms, which is not
accurate enough for narrow transition bands: a filter with 24 coefficients and
a transition bandwidth of 0.005 was predicted to have 183.5 dB, but had only
156.0 dB attenuation. For very wide transition bands, q suffered from
cancellation (transition bandwidth 0.499, 1 coefficient: 180.3 versus 156.9 dB).

The filters used by the resampler do not change (all coefficients are equal
when rounded to float), so the generated tables are left as they are.
---
 .../hiir/PolyphaseIir2Designer.cpp            | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index 390ab11..088d36c 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -474,11 +474,27 @@ void	PolyphaseIir2Designer::compute_transition_param (double &k, double &q, doub
 	k *= k;
 	assert (k < 1);
 	assert (k > 0);
-	double         kksqrt = pow (1 - k * k, 0.25);
-	const double   e = 0.5 * (1 - kksqrt) / (1 + kksqrt);
+
+	// e = 0.5 * (1 - kksqrt) / (1 + kksqrt), where kksqrt = (1 - k^2)^(1/4),
+	// without cancellation for small k
+	const double   kksqrt_m1 = expm1 (0.25 * log1p (-k * k));
+	const double   e = -0.5 * kksqrt_m1 / (2 + kksqrt_m1);
 	const double   e2 = e * e;
 	const double   e4 = e2 * e2;
-	q = e * (1 + e4 * (2 + e4 * (15 + 150 * e4)));
+
+	// Nome as a power series of e (OEIS A002103). With a narrow transition
+	// band, e gets close to 1/4 and the first terms alone are not enough.
+	static constexpr double	coef_arr [] =
+	{
+		1, 2, 15, 150, 1707, 20910, 268616, 3567400, 48555069, 673458874,
+		9481557398.0
+	};
+	q = 0;
+	for (int i = sizeof (coef_arr) / sizeof (coef_arr [0]) - 1; i >= 0; --i)
+	{
+		q = q * e4 + coef_arr [i];
+	}
+	q *= e;
 	assert (q > 0);
 }
 
-- 
2.43.0


From cde8162e34efbf748ce94514051c78eece18f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:26 +0000
Subject: [PATCH 10/12] fix: FIR upsampling of blocks with 2^31 or more samples
 wrote to the wrong place

The index of output samples was computed with 32 bits and wrapped around.
---
 include/pandaresampler/pandaresampler.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index e554f30..d0056c0 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -394,15 +394,15 @@ protected:
         /* (i + 6) -> need to take into account that the filter needs to access
          * some samples after the end of the input data
          */
-	while (i + 6 < n_input_samples)
+	while (n_input_samples - i > 6)
 	  {
-	    process_4samples_aligned (&input[i], &output[i*2]);
+	    process_4samples_aligned (&input[i], &output[2 * size_t (i)]);
 	    i += 4;
 	  }
       }
     while (i < n_input_samples)
       {
-	process_sample_unaligned (&input[i], &output[2*i]);
+	process_sample_unaligned (&input[i], &output[2 * size_t (i)]);
 	i++;
       }
   }
@@ -417,11 +417,11 @@ protected:
       {
 	while ((reinterpret_cast<ptrdiff_t> (&input[i]) & 15) && i < n_input_samples)
 	  {
-	    process_sample_unaligned (&input[i], &output[2 * i]);
+	    process_sample_unaligned (&input[i], &output[2 * size_t (i)]);
 	    i++;
 	  }
       }
-    process_block_aligned (&input[i], n_input_samples - i, &output[2 * i]);
+    process_block_aligned (&input[i], n_input_samples - i, &output[2 * size_t (i)]);
   }
 public:
   /*
-- 
2.43.0


From 9d6bcab140e2921212660472409a80806de4ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:00 +0000
Subject: [PATCH 11/12] fix: AlignedArray crashed when memory ran out and
 leaked when an element threw

malloc() was not checked, so that constructing an AlignedArray without
enough memory (or with a size that overflows) wrote to a bad address, and
an exception from an element leaked the memory and the elements before it.
---
 include/pandaresampler.hh | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 94a11e8..b8f62cc 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -4,6 +4,7 @@
 
 #include <vector>
 #include <memory>
+#include <new>
 #include <cstdio>
 #include <cstdlib>
 
@@ -48,26 +49,36 @@ class AlignedArray {
   size_t n_elements;
 
   void
-  allocate_aligned_data()
+  allocate_aligned_data (size_t n_elements)
   {
     /* for SSE we need 16-byte alignment, but we also ensure that no false
      * sharing will occur (at begin and end of data)
      */
     const size_t cache_line_size = 64;
 
-    unaligned_mem = (unsigned char *) malloc (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
+    const size_t padding = 2 * (cache_line_size - 1);
+    const size_t max_elements = (size_t (-1) - padding) / sizeof (T);
+
+    /* this throws std::bad_alloc if there is not enough memory */
+    unaligned_mem = (unsigned char *) ::operator new (n_elements <= max_elements ? n_elements * sizeof (T) + padding : size_t (-1));
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
 
     data = reinterpret_cast<T *> (aligned_mem);
   }
+  struct NoElements {};
+  AlignedArray (size_t n_elements, NoElements) :
+    n_elements (0)
+  {
+    allocate_aligned_data (n_elements);
+  }
 public:
   AlignedArray (size_t n_elements) :
-    n_elements (n_elements)
+    AlignedArray (n_elements, NoElements())
   {
-    allocate_aligned_data();
-    for (size_t i = 0; i < n_elements; i++)
+    /* if this throws, the destructor is called for the elements that exist */
+    for (size_t i = 0; i < n_elements; i++, this->n_elements++)
       new (data + i) T();
   }
   AlignedArray (const std::vector<T>& elements) :
@@ -93,7 +104,7 @@ public:
     /* C++ destruction order: last allocated element is deleted first */
     while (n_elements)
       data[--n_elements].~T();
-    free (unaligned_mem);
+    ::operator delete (unaligned_mem);
   }
   T&
   operator[] (size_t pos)
-- 
2.43.0


From ac1b527c7747f50872a729e31b32229668381676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 12/12] fix: filter self-test: NaN results of the SSE code are
 errors

---
 include/pandaresampler/pandaresampler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index d0056c0..7ecdd80 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -328,7 +328,7 @@ fir_test_filter_sse (bool       verbose,
 	  avg_diff += fabs (diff);
 	}
       avg_diff /= (order + 1);
-      bool is_error = (avg_diff > 0.00001);
+      bool is_error = !(avg_diff <= 0.00001); /* NaN is an error, too */
       if (is_error || verbose)
 	printf ("*** order = %d, avg_diff = %g\n", order, avg_diff);
       if (is_error)
-- 
2.43.0

