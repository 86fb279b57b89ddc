From 9f8d4f8204ab860c3ab5929dce37c84540374611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 001/124] fix: compute the chirp of arbitrary-length DFT with
 exact phase reduction

The phase pi * k^2 / size was computed in T without reduction, so the error of
prime-size transforms grew linearly with the size (2e-4 for n=127 in float,
total loss of accuracy for large sizes).
---
 src/dft/dft-impl.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index 21fe447..7843a38 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -211,8 +211,15 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->temp_size   = plan.temp_size;
         this->stage_size  = size;
 
-        chirp_ = render(cexp(sqr(linspace(T(1) - size, size - T(1), size * 2 - 1, true, ctrue)) *
-                             complex<T>(0, -1) * c_pi<T> / size));
+        // exp(-j * pi * k^2 / size) has period 2 * size in k^2. The reduction is done in integers, otherwise
+        // the phase grows up to pi * size and loses all its accuracy
+        chirp_.resize(size * 2 - 1);
+        for (size_t i = 0; i < size * 2 - 1; ++i)
+        {
+            const uint64_t k     = i < size ? size - 1 - i : i + 1 - size;
+            const uint64_t phase = k * k % (size * 2);
+            cwrite<1>(&chirp_[i], cossin_conj(broadcast<2, T>(c_pi<T> * phase / size)));
+        }
 
         ichirpp_ = render(truncate(padded(1 / slice(chirp_, 0, 2 * size - 1)), fftsize));
 
-- 
2.43.0


From 4fed6d65f0900540c185e2ca8e5b3a3308070e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 002/124] fix: allocate scratch in dct_plan::execute when temp
 is NULL

capi.h documents that a NULL temporary buffer is allocated internally and
dft_plan does so, but dct_plan computed addresses from the NULL pointer.
---
 include/kfr/dft/fft.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index cfc075e..7addc15 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -863,6 +863,11 @@ struct dct_plan : dft_plan<T>
 
     KFR_MEM_INTRINSIC void execute(T* out, const T* in, u8* temp, bool inverse = false) const
     {
+        if (temp == nullptr && this->temp_size > 0)
+        {
+            return call_with_temp(this->temp_size,
+                                  [&](u8* allocated) { this->execute(out, in, allocated, inverse); });
+        }
         const size_t size                  = this->size;
         const size_t halfSize              = size / 2;
         univector_ref<complex<T>> mirrored = make_univector(
-- 
2.43.0


From 3962c413ad90b7db8379054fa776025bb0233d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 003/124] fix: inverted direction check in
 dft_plan_md_real::execute

The overloads taking a direction flag threw for the only direction they
support and accepted the opposite one.
---
 include/kfr/dft/fft.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index 7addc15..bd1167f 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -719,12 +719,12 @@ struct dft_plan_md_real
     }
     void execute(complex<T>* out, const T* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(cfalse, out, in, temp);
     }
     void execute(T* out, const complex<T>* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(ctrue, out, in, temp);
     }
 
-- 
2.43.0


From e94f8e1539cca93c1953da56d69fba57ded52c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 004/124] fix: dct_plan scratch overlapped its own data for
 multi-stage sizes

dct_plan enlarged dft_plan::temp_size, which the DFT uses to locate its scratch
at the end of the buffer, where dct_plan keeps the mirrored input and spectrum.
The DCT of e.g. size 15 or 100 was wrong.
---
 include/kfr/dft/fft.hpp | 9 ++++++++-
 src/capi/capi.cpp       | 4 ++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index bd1167f..aa67adc 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -853,7 +853,14 @@ private:
 template <typename T>
 struct dct_plan : dft_plan<T>
 {
-    dct_plan(size_t size) : dft_plan<T>(size) { this->temp_size += sizeof(complex<T>) * size * 2; }
+    /// The temporary (scratch) buffer size for the DCT plan.
+    /// @note dft_plan<T>::temp_size must stay as is because the DFT locates its own scratch using it.
+    size_t temp_size;
+
+    dct_plan(size_t size)
+        : dft_plan<T>(size), temp_size(dft_plan<T>::temp_size + sizeof(complex<T>) * size * 2)
+    {
+    }
 
     [[deprecated("cpu parameter is deprecated. Runtime dispatch is used if built with "
                  "KFR_ENABLE_MULTIARCH")]] dct_plan(cpu_t cpu, size_t size)
diff --git a/src/capi/capi.cpp b/src/capi/capi.cpp
index e050d70..14f287c 100644
--- a/src/capi/capi.cpp
+++ b/src/capi/capi.cpp
@@ -514,11 +514,11 @@ KFR_API_SPEC size_t kfr_dct_get_size_f64(KFR_DCT_PLAN_F64* plan)
 
 KFR_API_SPEC size_t kfr_dct_get_temp_size_f32(KFR_DCT_PLAN_F32* plan)
 {
-    return try_fn([&]() { return reinterpret_cast<dft_plan<float>*>(plan)->temp_size; }, 0);
+    return try_fn([&]() { return reinterpret_cast<dct_plan<float>*>(plan)->temp_size; }, 0);
 }
 KFR_API_SPEC size_t kfr_dct_get_temp_size_f64(KFR_DCT_PLAN_F64* plan)
 {
-    return try_fn([&]() { return reinterpret_cast<dft_plan<double>*>(plan)->temp_size; }, 0);
+    return try_fn([&]() { return reinterpret_cast<dct_plan<double>*>(plan)->temp_size; }, 0);
 }
 
 KFR_API_SPEC void kfr_dct_execute_f32(KFR_DCT_PLAN_F32* plan, float* out, const float* in, uint8_t* temp)
-- 
2.43.0


From 1c9ade71542948b49e6944a95f815454e2195da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 005/124] fix: keep the work area of arbitrary-length DFT in
 the scratch buffer

dft_arblen_stage_impl::do_execute wrote to members of the plan, so two threads executing the same plan
overwrote each other's data.
---
 src/dft/dft-impl.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index 7843a38..f4bea87 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -208,7 +208,8 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->repeats     = 1;
         this->recursion   = false;
         this->can_inplace = false;
-        this->temp_size   = plan.temp_size;
+        xp_offset         = align_up(plan.temp_size, platform<>::native_cache_alignment);
+        this->temp_size   = xp_offset + sizeof(complex<T>) * fftsize * 2;
         this->stage_size  = size;
 
         // exp(-j * pi * k^2 / size) has period 2 * size in k^2. The reduction is done in integers, otherwise
@@ -225,8 +226,6 @@ struct dft_arblen_stage_impl : dft_stage<T>
 
         univector<u8> temp(plan.temp_size);
         plan.execute(ichirpp_, ichirpp_, temp);
-        xp.resize(fftsize, 0);
-        xp_fft.resize(fftsize);
         invN2 = T(1) / fftsize;
     }
 
@@ -238,7 +237,13 @@ struct dft_arblen_stage_impl : dft_stage<T>
 
         auto&& chirp = apply_conj(chirp_, cbool<inverse>);
 
-        xp.slice(0, n) = make_univector(in, n) * slice(chirp, n - 1);
+        // The plan may be executed by many threads at once, so the work area must be in the scratch buffer
+        complex<T>* work = ptr_cast<complex<T>>(temp + xp_offset);
+        auto xp          = make_univector(work, fftsize);
+        auto xp_fft      = make_univector(work + fftsize, fftsize);
+
+        xp.slice(0, n)           = make_univector(in, n) * slice(chirp, n - 1);
+        xp.slice(n, fftsize - n) = zeros<complex<T>>();
 
         plan.execute(xp_fft.data(), xp.data(), temp);
 
@@ -257,8 +262,7 @@ struct dft_arblen_stage_impl : dft_stage<T>
     dft_plan<T> plan;
     univector<complex<T>> chirp_;
     univector<complex<T>> ichirpp_;
-    univector<complex<T>> xp;
-    univector<complex<T>> xp_fft;
+    size_t xp_offset;
 };
 
 template <typename T, size_t radix1, size_t radix2, size_t size = radix1 * radix2>
-- 
2.43.0


From c2916889b688f90e3e75a75a63b3b8c79d4d2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 006/124] fix: do not select AVX2 code on processors without
 FMA

The AVX2 and AVX512 variants are compiled with -mfma.
---
 include/kfr/runtime/cpuid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/runtime/cpuid.hpp b/include/kfr/runtime/cpuid.hpp
index 6318505..3c648ee 100644
--- a/include/kfr/runtime/cpuid.hpp
+++ b/include/kfr/runtime/cpuid.hpp
@@ -281,10 +281,11 @@ cpu_t detect_cpu()
     c.hasAVXOSSUPPORT    = c.hasAVX && c.hasOSXSAVE && (get_xcr0() & 0x06) == 0x06;
     c.hasAVX512OSSUPPORT = c.hasAVXOSSUPPORT && c.hasAVX512F && c.hasOSXSAVE && (get_xcr0() & 0xE0) == 0xE0;
 
-    if (c.hasAVX512F && c.hasAVX512CD && c.hasAVX512VL && c.hasAVX512BW && c.hasAVX512DQ &&
+    // the code for AVX2 and AVX512 is compiled with FMA enabled
+    if (c.hasAVX512F && c.hasAVX512CD && c.hasAVX512VL && c.hasAVX512BW && c.hasAVX512DQ && c.hasFMA &&
         c.hasAVX512OSSUPPORT)
         return cpu_t::avx512;
-    if (c.hasAVX2 && c.hasAVXOSSUPPORT)
+    if (c.hasAVX2 && c.hasFMA && c.hasAVXOSSUPPORT)
         return cpu_t::avx2;
     if (c.hasAVX && c.hasAVXOSSUPPORT)
         return cpu_t::avx1;
-- 
2.43.0


From c792595bc288f046a11f93dda3372ca200f35433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 007/124] fix: modzerobessel overflowed in f32 above 16 and was
 truncated too early

The f32 resampler with perfect quality (Kaiser beta of 18.9) produced only NaN.
---
 include/kfr/math/impl/modzerobessel.hpp | 50 +++----------------------
 1 file changed, 6 insertions(+), 44 deletions(-)

diff --git a/include/kfr/math/impl/modzerobessel.hpp b/include/kfr/math/impl/modzerobessel.hpp
index ec462b6..95ae0b8 100644
--- a/include/kfr/math/impl/modzerobessel.hpp
+++ b/include/kfr/math/impl/modzerobessel.hpp
@@ -41,56 +41,18 @@ namespace intrinsics
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> modzerobessel(const vec<T, N>& x)
 {
-    constexpr static T bessel_coef[] = { T(0.25),
-                                         T(0.027777777777777776236),
-                                         T(0.0017361111111111110147),
-                                         T(6.9444444444444444384e-005),
-                                         T(1.9290123456790123911e-006),
-                                         T(3.9367598891408417495e-008),
-                                         T(6.1511873267825652335e-010),
-                                         T(7.5940584281266239246e-012),
-                                         T(7.5940584281266233693e-014),
-                                         T(6.2760813455591932909e-016),
-                                         T(4.3583898233049949985e-018),
-                                         T(2.5789288895295827557e-020),
-                                         T(1.3157800456783586208e-022),
-                                         T(5.8479113141260384983e-025),
-                                         T(2.2843403570804837884e-027),
-                                         T(7.904291893012054025e-030),
-                                         T(2.4395962632753252792e-032),
-                                         T(6.75788438580422547e-035),
-                                         T(1.689471096451056426e-037),
-                                         T(3.8310002187098784929e-040),
-                                         T(7.9152897080782616517e-043),
-                                         T(1.4962740468957016443e-045),
-                                         T(2.5976979980828152196e-048),
-                                         T(4.1563167969325041577e-051),
-                                         T(6.1483976285983795968e-054),
-                                         T(8.434015951438105991e-057),
-                                         T(1.0757673407446563809e-059),
-                                         T(1.2791526049282476926e-062),
-                                         T(1.4212806721424974034e-065),
-                                         T(1.4789601166935457918e-068),
-                                         T(1.4442969889585408123e-071),
-                                         T(1.3262598613026086927e-074),
-                                         T(1.1472836170437790782e-077),
-                                         T(9.3655805472961564331e-081),
-                                         T(7.2265282000741942594e-084),
-                                         T(5.2786911614858977913e-087),
-                                         T(3.6556032974279072401e-090),
-                                         T(2.4034209713529963119e-093),
-                                         T(1.5021381070956226783e-096) };
-
     const vec<T, N> x_2     = x * 0.5;
     const vec<T, N> x_2_sqr = x_2 * x_2;
-    vec<T, N> num           = x_2_sqr;
+    vec<T, N> term          = x_2_sqr;
     vec<T, N> result;
     result = 1 + x_2_sqr;
 
-    CMT_LOOP_UNROLL
-    for (size_t i = 0; i < (sizeof(T) == 4 ? 20 : 39); i++)
+    // (x/2)^(2k) / (k!)^2. Each term is made from the previous one, because the power alone overflows.
+    // The number of terms is enough for any x with finite result in f32 and for x up to 80 in f64
+    for (size_t i = 2; i < (sizeof(T) == 4 ? 80 : 120); i++)
     {
-        result = fmadd((num *= x_2_sqr), bessel_coef[i], result);
+        term   = term * (x_2_sqr * (T(1) / T(i * i)));
+        result = result + term;
     }
     return result;
 }
-- 
2.43.0


From 68f7f8547546df657ae94a3fb06c96402cea01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 008/124] fix: keep the imaginary part in convolution and
 correlation of complex data

---
 src/dft/convolution-impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dft/convolution-impl.cpp b/src/dft/convolution-impl.cpp
index 5c58803..e5048b0 100644
--- a/src/dft/convolution-impl.cpp
+++ b/src/dft/convolution-impl.cpp
@@ -121,7 +121,10 @@ univector<T> convolve(const univector_ref<const T>& src1, const univector_ref<co
     src1padded = src1padded * src2padded;
     dft->execute(src1padded, src1padded, temp, true);
     const ST invsize = reciprocal<ST>(static_cast<ST>(size));
-    return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
+    if constexpr (std::is_same_v<T, complex<ST>>)
+        return truncate(src1padded, src1.size() + src2.size() - 1) * invsize;
+    else
+        return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
 }
 template univector<f32> convolve<f32>(const univector_ref<const f32>&, const univector_ref<const f32>&, bool);
 template univector<f64> convolve<f64>(const univector_ref<const f64>&, const univector_ref<const f64>&, bool);
-- 
2.43.0


From 491438e0206e9b67b9ec03b6f79b58769cf4fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 009/124] fix: IIR cascades lost their state after short
 blocks, ignored the start of the range and did not begin nested passes

---
 include/kfr/dsp/biquad.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 48b1be8..a5b4e44 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -301,30 +301,38 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_iir_l<filters, T, E1, Stat
 }
 
 template <typename T, typename E1, bool Stateless>
-KFR_INTRINSIC void begin_pass(const expression_iir<1, T, E1, Stateless>&, shape<1>, shape<1>)
+KFR_INTRINSIC void begin_pass(const expression_iir<1, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
+    begin_pass(self.first(), start, stop);
 }
 template <size_t filters, typename T, typename E1, bool Stateless>
 KFR_INTRINSIC void begin_pass(const expression_iir<filters, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
-    size_t size           = stop.front();
-    self.state->block_end = size;
+    begin_pass(self.first(), start, stop);
+    const index_t first   = start.front();
+    const size_t size     = stop.front() - first;
+    self.state->block_end = stop.front();
     vec<T, filters - 1> in;
     for (index_t i = 0; i < filters - 1; i++)
     {
-        in[i] = i < size ? get_elements(self.first(), shape<1>{ i }, axis_params_v<0, 1>).front() : 0;
+        in[i] = i < size ? get_elements(self.first(), shape<1>{ first + i }, axis_params_v<0, 1>).front() : 0;
     }
-    internal::biquad_process(*self.state, in);
+    if (size < filters) // the whole block is consumed here
+        internal::biquad_process(*self.state, in, size);
+    else
+        internal::biquad_process(*self.state, in);
 }
 
 template <typename T, typename E1, bool Stateless>
-KFR_INTRINSIC void end_pass(const expression_iir<1, T, E1, Stateless>&, shape<1>, shape<1>)
+KFR_INTRINSIC void end_pass(const expression_iir<1, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
+    end_pass(self.first(), start, stop);
 }
 template <size_t filters, typename T, typename E1, bool Stateless>
 KFR_INTRINSIC void end_pass(const expression_iir<filters, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
     self.state->state = self.state->saved_state;
+    end_pass(self.first(), start, stop);
 }
 
 template <typename T, typename E1, bool Stateless, size_t N>
-- 
2.43.0


From 1abd32790948fbb9ada3f775d76f44f6fd1af7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 010/124] fix: iir_filter::reset did nothing

---
 include/kfr/dsp/biquad.hpp |  6 ++++++
 src/dsp/biquad.cpp         | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index a5b4e44..030a1a4 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -517,6 +517,12 @@ public:
         : iir_filter(iir_params<T>(bq, count))
     {
     }
+
+    /// Reset internal filter state
+    void reset() final;
+
+protected:
+    iir_params<T> params;
 };
 
 template <typename T>
diff --git a/src/dsp/biquad.cpp b/src/dsp/biquad.cpp
index e8f7ed2..4f2b668 100644
--- a/src/dsp/biquad.cpp
+++ b/src/dsp/biquad.cpp
@@ -52,13 +52,21 @@ template expression_handle<double, 1> create_iir_filter<double>(const iir_params
 #ifdef CMT_MULTI_NEEDS_GATE
 
 template <typename T>
-iir_filter<T>::iir_filter(const iir_params<T>& params)
+iir_filter<T>::iir_filter(const iir_params<T>& params) : params(params)
+{
+    reset();
+}
+
+template <typename T>
+void iir_filter<T>::reset()
 {
     CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(params));
 }
 
 template iir_filter<float>::iir_filter(const iir_params<float>&);
 template iir_filter<double>::iir_filter(const iir_params<double>&);
+template void iir_filter<float>::reset();
+template void iir_filter<double>::reset();
 
 #endif
 
-- 
2.43.0


From 699a141fb56549c9258a9b84e152c758254703ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 011/124] fix: moving_sum of length 1 read beyond its delay
 line

---
 include/kfr/dsp/fir.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d1a8918..5d79100 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -118,14 +118,16 @@ fir_state(Cont&&) -> fir_state<container_value_type<Cont>>;
 template <typename U, univector_tag Tag = tag_dynamic_vector>
 struct moving_sum_state
 {
-    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(Tag == 1 ? 0 : 1) {}
     univector<U, Tag> delayline;
     size_t head_cursor, tail_cursor;
 };
 template <typename U>
 struct moving_sum_state<U, tag_dynamic_vector>
 {
-    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(sum_length == 1 ? 0 : 1)
+    {
+    }
     univector<U> delayline;
     size_t head_cursor, tail_cursor;
 };
-- 
2.43.0


From 4d293eaa9b5c5154b74296dd34927d7020138b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 012/124] fix: delay by one sample did not compile with
 external or dynamic state

---
 include/kfr/dsp/delay.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/dsp/delay.hpp b/include/kfr/dsp/delay.hpp
index 830be9d..322ccfe 100644
--- a/include/kfr/dsp/delay.hpp
+++ b/include/kfr/dsp/delay.hpp
@@ -115,8 +115,8 @@ struct expression_delay : expression_with_arguments<E>, public expression_traits
     mutable state_holder<delay_state<T, delay, STag>, stateless> state;
 };
 
-template <typename E, bool stateless, univector_tag STag>
-struct expression_delay<1, E, stateless, STag> : expression_with_arguments<E>, expression_traits_defaults
+template <typename E, bool stateless>
+struct expression_delay<1, E, stateless, 1> : expression_with_arguments<E>, expression_traits_defaults
 {
     using ArgTraits = expression_traits<E>;
     static_assert(ArgTraits::dims == 1, "expression_delay requires argument with dims == 1");
@@ -132,8 +132,8 @@ struct expression_delay<1, E, stateless, STag> : expression_with_arguments<E>, e
     using T = value_type;
     using expression_with_arguments<E>::expression_with_arguments;
 
-    expression_delay(E&& e, const delay_state<T, 1, STag>& state)
-        : expression_with_arguments<E>(std::forward<E>(e)), state(state)
+    expression_delay(E&& e, state_holder<delay_state<T, 1, 1>, stateless> state)
+        : expression_with_arguments<E>(std::forward<E>(e)), state(std::move(state))
     {
     }
 
@@ -146,7 +146,7 @@ struct expression_delay<1, E, stateless, STag> : expression_with_arguments<E>, e
         self.state->data    = in[N - 1];
         return out;
     }
-    mutable state_holder<delay_state<T, 1, STag>, stateless> state;
+    mutable state_holder<delay_state<T, 1, 1>, stateless> state;
 };
 
 /**
-- 
2.43.0


From 9e7f9d4212c24992290c4a4cbdf938b130a492b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 013/124] fix: dcremove did not compile

---
 include/kfr/dsp/dcremove.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/dsp/dcremove.hpp b/include/kfr/dsp/dcremove.hpp
index 259ae41..794f0ad 100644
--- a/include/kfr/dsp/dcremove.hpp
+++ b/include/kfr/dsp/dcremove.hpp
@@ -35,7 +35,7 @@ template <typename E1, typename T = flt_type<expression_value_type<E1>>>
 KFR_INTRINSIC expression_iir<1, T, E1> dcremove(E1&& e1, double cutoff = 0.00025)
 {
     const biquad_section<T> bqs[1] = { biquad_highpass(cutoff, 0.5) };
-    return expression_iir<1, T, E1>(bqs, std::forward<E1>(e1));
+    return expression_iir<1, T, E1>(std::forward<E1>(e1), iir_state{ iir_params{ bqs } });
 }
 
 } // namespace kfr
-- 
2.43.0


From eed98976cdef88dd47f98b18f58850032070ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 014/124] fix: filter::apply overloads taking expressions did
 not compile

---
 include/kfr/base/filter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/filter.hpp b/include/kfr/base/filter.hpp
index 3a662b6..bcf3f84 100644
--- a/include/kfr/base/filter.hpp
+++ b/include/kfr/base/filter.hpp
@@ -80,12 +80,12 @@ public:
     template <univector_tag Tag>
     void apply(univector<T, Tag>& dest, const expression_handle<T, 1>& src)
     {
-        process_expression(dest.data(), src, size_min(dest.size(), src.size()));
+        process_expression(dest.data(), src, size_min(dest.size(), get_shape(src).front()));
     }
 
     void apply(T* dest, const expression_handle<T, 1>& src, size_t size)
     {
-        process_expression(dest, src, size_min(size, src.size()));
+        process_expression(dest, src, size_min(size, get_shape(src).front()));
     }
 
     template <univector_tag Tag, typename Expr, KFR_ENABLE_IF(is_input_expression<Expr>)>
@@ -98,7 +98,7 @@ public:
     template <typename Expr, KFR_ENABLE_IF(is_input_expression<Expr>)>
     void apply(T* dest, const Expr& src, size_t size)
     {
-        process_expression(dest, to_handle(src), size_min(size, src.size()));
+        process_expression(dest, to_handle(src), size_min(size, get_shape(src).front()));
     }
 
 protected:
-- 
2.43.0


From 4817d259123819242e9f11c97a35bdba5e625333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 015/124] fix: expression handles never destroyed the
 expression they own (leak)

---
 include/kfr/base/handle.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 7ecd09a..0dddb50 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -172,8 +172,13 @@ template <typename E>
 KFR_INTRINSIC std::shared_ptr<expression_resource> make_resource(E&& e)
 {
     using T = expression_resource_impl<std::decay_t<E>>;
-    return std::static_pointer_cast<expression_resource>(std::shared_ptr<T>(
-        new (aligned_allocate<T>()) T(std::move(e)), [](T* pi) { aligned_deallocate<T>(pi); }));
+    return std::static_pointer_cast<expression_resource>(
+        std::shared_ptr<T>(new (aligned_allocate<T>()) T(std::move(e)),
+                           [](T* pi)
+                           {
+                               pi->~T();
+                               aligned_deallocate<T>(pi);
+                           }));
 }
 
 template <typename T, index_t Dims = 1>
-- 
2.43.0


From a781d74987bdfb418d1e45b0017db23d9963d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 016/124] fix: reset of a filter made of an expression did
 nothing

---
 include/kfr/base/filter.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/filter.hpp b/include/kfr/base/filter.hpp
index bcf3f84..5e318f9 100644
--- a/include/kfr/base/filter.hpp
+++ b/include/kfr/base/filter.hpp
@@ -29,6 +29,7 @@
 #include "expression.hpp"
 #include "handle.hpp"
 #include "univector.hpp"
+#include <functional>
 
 namespace kfr
 {
@@ -112,6 +113,18 @@ class expression_filter : public filter<T>
 public:
     explicit expression_filter(expression_handle<T, 1> filter_expr) : filter_expr(std::move(filter_expr)) {}
 
+    /// @brief Creates a filter that obtains its expression in the initial state from the given function
+    explicit expression_filter(std::function<expression_handle<T, 1>()> make_expr)
+        : filter_expr(make_expr()), make_expr(std::move(make_expr))
+    {
+    }
+
+    void reset() override
+    {
+        if (make_expr)
+            filter_expr = make_expr();
+    }
+
 protected:
     expression_filter() = default;
     void process_buffer(T* dest, const T* src, size_t size) override
@@ -126,6 +139,7 @@ protected:
     }
 
     expression_handle<T, 1> filter_expr;
+    std::function<expression_handle<T, 1>()> make_expr;
 };
 
 inline namespace CMT_ARCH_NAME
@@ -135,7 +149,12 @@ inline namespace CMT_ARCH_NAME
 template <typename E, typename T = expression_value_type<E>>
 KFR_INTRINSIC expression_filter<T> to_filter(E&& e)
 {
-    return expression_filter<T>(to_handle(std::move(e)));
+    using Expr = std::decay_t<E>;
+    if constexpr (std::is_copy_constructible_v<Expr>)
+        return expression_filter<T>(std::function<expression_handle<T, 1>()>(
+            [initial = Expr(std::forward<E>(e))]() { return to_handle(Expr(initial)); }));
+    else
+        return expression_filter<T>(to_handle(std::move(e)));
 }
 } // namespace CMT_ARCH_NAME
 
-- 
2.43.0


From 3f071eddd82df28b03b0e45a92a39a6b925c9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 017/124] fix: sample rate converter lost and invented samples
 in push mode when decimating

---
 include/kfr/dsp/sample_rate_conversion.hpp | 28 ++++++++++++++++++----
 src/dsp/sample_rate_conversion.cpp         |  2 +-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/kfr/dsp/sample_rate_conversion.hpp b/include/kfr/dsp/sample_rate_conversion.hpp
index 249b132..7560717 100644
--- a/include/kfr/dsp/sample_rate_conversion.hpp
+++ b/include/kfr/dsp/sample_rate_conversion.hpp
@@ -199,8 +199,13 @@ public:
      */
     KFR_MEM_INTRINSIC itype output_size_for_input(itype input_size) const
     {
-        return input_position_to_output(input_position + input_size - 1) -
-               input_position_to_output(input_position - 1);
+        // all outputs that depend only on the samples up to input_position + input_size - 1
+        return input_position + input_size > 0
+                   ? floor_div(input_position_to_intermediate(input_position + input_size) - 1,
+                               decimation_factor)
+                             .quot +
+                         1 - output_position
+                   : 0;
     }
 
     /**
@@ -210,8 +215,10 @@ public:
      */
     KFR_MEM_INTRINSIC itype input_size_for_output(itype output_size) const
     {
-        return output_position_to_input(output_position + output_size - 1) -
-               output_position_to_input(output_position - 1);
+        return output_size > 0 ? std::max(
+                                     output_position_to_input(output_position + output_size - 1) + 1 - input_position,
+                                     itype(0))
+                               : 0;
     }
 
     /**
@@ -222,7 +229,7 @@ public:
      */
     size_t skip(size_t output_size, univector_ref<const T> input)
     {
-        const itype required_input_size = input_size_for_output(output_size);
+        const itype required_input_size = consumed_input_size(output_size, input.size());
 
         if (required_input_size >= depth)
         {
@@ -278,6 +285,17 @@ protected:
     itype input_position; /**< Current input position. */
     itype output_position; /**< Current output position. */
 
+    /**
+     * @brief Calculates the number of input samples consumed by producing `output_size` samples.
+     * If the input ends before the first sample required by the next output, all of it is consumed.
+     */
+    KFR_MEM_INTRINSIC itype consumed_input_size(itype output_size, itype input_size) const
+    {
+        const itype required = input_size_for_output(output_size);
+        const itype next     = output_position_to_input(output_position + output_size) - input_position;
+        return input_size <= next ? std::max(required, input_size) : required;
+    }
+
     /**
      * @brief Internal implementation of the process function.
      * @param output Output buffer slice.
diff --git a/src/dsp/sample_rate_conversion.cpp b/src/dsp/sample_rate_conversion.cpp
index e772f10..9aefbde 100644
--- a/src/dsp/sample_rate_conversion.cpp
+++ b/src/dsp/sample_rate_conversion.cpp
@@ -90,7 +90,7 @@ void samplerate_converter<T>::init(sample_rate_conversion_quality quality, itype
 template <typename T>
 size_t samplerate_converter<T>::process_impl(univector_ref<T> output, univector_ref<const T> input)
 {
-    const itype required_input_size = this->input_size_for_output(output.size());
+    const itype required_input_size = this->consumed_input_size(output.size(), input.size());
 
     const itype input_size = input.size();
     for (size_t i = 0; i < output.size(); i++)
-- 
2.43.0


From 35acc0df53caf8e232299a2f515c4319f39f8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 018/124] fix: sample rate converter filter was centred half a
 sample off its reported delay

---
 src/dsp/sample_rate_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/sample_rate_conversion.cpp b/src/dsp/sample_rate_conversion.cpp
index 9aefbde..fdf774a 100644
--- a/src/dsp/sample_rate_conversion.cpp
+++ b/src/dsp/sample_rate_conversion.cpp
@@ -66,7 +66,7 @@ void samplerate_converter<T>::init(sample_rate_conversion_quality quality, itype
     this->interpolation_factor = interpolation_factor;
     this->decimation_factor    = decimation_factor;
 
-    const itype halftaps = this->taps / 2;
+    const ftype halftaps = static_cast<ftype>(this->order) / 2;
     this->filter         = univector<T>(size_t(this->taps), T());
     this->delay          = univector<T>(size_t(this->depth), T());
 
-- 
2.43.0


From 96a5f305d8c9a3bf5041fe90489ac8e436cd1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 019/124] fix: linspace of a single point including the end
 returned NaN

---
 include/kfr/base/basic_expressions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 51be798..aaed60b 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -698,7 +698,7 @@ struct expression_linspace
     T invsize;
 
     expression_linspace(T start, T stop, size_t size, bool endpoint = false)
-        : start(start), stop(stop), size(size), invsize(T(1.0) / T(endpoint ? size - 1 : size))
+        : start(start), stop(stop), size(size), invsize(endpoint && size <= 1 ? T(0) : T(1.0) / T(endpoint ? size - 1 : size))
     {
     }
 
-- 
2.43.0


From 40afacfcd3472c33315d445b9683e899de1f05ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 020/124] fix: Chebyshev prototypes were computed in single
 precision, NaN for the type II of order 3

---
 include/kfr/dsp/iir_design.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index fe3e076..de6de0f 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -60,7 +60,7 @@ KFR_FUNCTION zpk<T> chebyshev1(int N, identity<T> rp)
     T eps = sqrt(exp10(T(0.1) * rp) - T(1.0));
     T mu  = T(1.0) / N * std::asinh(1 / eps);
 
-    univector<T> m = linspace(-N + 1, N + 1, N, false, ctrue);
+    univector<T> m = truncate(counter(T(1 - N), T(2)), N);
 
     univector<T> theta      = c_pi<T> * m / (2 * N);
     univector<complex<T>> p = -csinh(make_complex(mu, theta));
@@ -85,17 +85,17 @@ KFR_FUNCTION zpk<T> chebyshev2(int N, identity<T> rs)
 
     if (N % 2)
     {
-        m = concatenate(linspace(-N + 1, -2, N / 2, true, ctrue), linspace(2, N - 1, N / 2, true, ctrue));
+        m = concatenate(truncate(counter(T(1 - N), T(2)), N / 2), truncate(counter(T(2), T(2)), N / 2));
     }
     else
     {
-        m = linspace(-N + 1, N + 1, N, false, ctrue);
+        m = truncate(counter(T(1 - N), T(2)), N);
     }
 
     univector<complex<T>> z = -cconj(complex<T>(0, 1) / sin(m * c_pi<T> / (T(2.0) * N)));
 
     univector<complex<T>> p =
-        -cexp(complex<T>(0, 1) * c_pi<T> * linspace(-N + 1, N + 1, N, false, ctrue) / (2 * N));
+        -cexp(complex<T>(0, 1) * c_pi<T> * truncate(counter(T(1 - N), T(2)), N) / (2 * N));
     p = make_complex(sinh(mu) * real(p), cosh(mu) * imag(p));
     p = T(1.0) / p;
 
-- 
2.43.0


From 1f75786c001998a433998b190585b37ab6da5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 021/124] fix: to_sos paired wrong poles and zeros when some
 are real

---
 include/kfr/dsp/iir_design.hpp | 39 ++++++++++++++++------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index de6de0f..bcf8313 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -902,6 +902,12 @@ KFR_FUNCTION univector<complex<T>> cplxreal(const univector<complex<T>>& list)
               [](const complex<T>& a, const complex<T>& b) { return a.real() < b.real(); });
     T tol                        = std::numeric_limits<T>::epsilon() * 100;
     univector<complex<T>> result = x;
+    // values that are real up to rounding
+    for (complex<T>& v : result)
+    {
+        if (abs(v.imag()) <= tol * cabs(v))
+            v.imag(0);
+    }
     for (size_t i = result.size(); i > 1; i--)
     {
         if (!isreal(result[i - 1]) && !isreal(result[i - 2]))
@@ -921,29 +927,20 @@ template <typename T>
 KFR_FUNCTION size_t nearest_real_or_complex(const univector<complex<T>>& list, const complex<T>& val,
                                             bool mustbereal = true)
 {
-    univector<complex<T>> filtered;
-    for (complex<T> v : list)
-    {
-        if (isreal(v) == mustbereal)
-        {
-            filtered.push_back(v);
-        }
-    }
-    TESTO_ASSERT(!filtered.empty());
-    if (filtered.empty())
-        return std::numeric_limits<size_t>::max();
-
-    size_t minidx = 0;
-    T minval      = cabs(val - filtered[0]);
-    for (size_t i = 1; i < filtered.size(); i++)
+    size_t minidx = std::numeric_limits<size_t>::max();
+    T minval      = 0;
+    for (size_t i = 0; i < list.size(); i++)
     {
-        T newminval = cabs(val - filtered[i]);
-        if (newminval < minval)
+        if (isreal(list[i]) != mustbereal)
+            continue;
+        T newminval = cabs(val - list[i]);
+        if (minidx == std::numeric_limits<size_t>::max() || newminval < minval)
         {
             minval = newminval;
             minidx = i;
         }
     }
+    TESTO_ASSERT(minidx != std::numeric_limits<size_t>::max());
     return minidx;
 }
 
@@ -1202,18 +1199,18 @@ KFR_FUNCTION iir_params<T> to_sos(const zpk<T>& filter)
                 if (!isreal(z1))
                 {
                     z2     = cconj(z1);
-                    p2_idx = internal::nearest_real_or_complex(filt.z, p1, true);
+                    p2_idx = internal::nearest_real_or_complex(filt.p, p1, true);
                     p2     = filt.p[p2_idx];
                     TESTO_ASSERT(isreal(p2));
                 }
                 else
                 {
                     size_t worstidx = 0;
-                    T worstval      = abs(cabs(filt.p[0]) - 1);
-                    for (size_t i = 1; i < filt.p.size(); i++)
+                    T worstval      = std::numeric_limits<T>::infinity();
+                    for (size_t i = 0; i < filt.p.size(); i++)
                     {
                         T val = abs(cabs(filt.p[i]) - 1);
-                        if (val < worstval)
+                        if (isreal(filt.p[i]) && val < worstval)
                         {
                             worstidx = i;
                             worstval = val;
-- 
2.43.0


From dac7a39d1cedbeeca9044e73532ea4a11de93761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 022/124] fix: biquad_allpass took the frequency in radians,
 multiplied by Q and returned an unnormalised a0

---
 include/kfr/dsp/biquad_design.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/kfr/dsp/biquad_design.hpp b/include/kfr/dsp/biquad_design.hpp
index 27f9362..421f2f4 100644
--- a/include/kfr/dsp/biquad_design.hpp
+++ b/include/kfr/dsp/biquad_design.hpp
@@ -42,16 +42,15 @@ inline namespace CMT_ARCH_NAME
 template <typename T = fbase>
 KFR_FUNCTION biquad_section<T> biquad_allpass(identity<T> frequency, identity<T> Q)
 {
-    const T alpha = std::sin(frequency) / 2.0 * Q;
-    const T cs    = std::cos(frequency);
-
-    const T b0 = 1.0 / (1.0 + alpha);
-    const T b1 = -2.0 * cs * b0;
-    const T b2 = (1.0 - alpha) * b0;
-    const T a0 = (1.0 - alpha) * b0;
-    const T a1 = -2.0 * cs * b0;
-    const T a2 = (1.0 + alpha) * b0;
-    return { b0, b1, b2, a0, a1, a2 };
+    const T K    = std::tan(c_pi<T, 1> * frequency);
+    const T K2   = K * K;
+    const T norm = 1 / (1 + K / Q + K2);
+    const T a0   = (1 - K / Q + K2) * norm;
+    const T a1   = 2 * (K2 - 1) * norm;
+    const T a2   = 1;
+    const T b1   = a1;
+    const T b2   = a0;
+    return { 1.0, b1, b2, a0, a1, a2 };
 }
 
 /**
-- 
2.43.0


From 844fca9d22dd9763b6d8594d5ba132f0e53a2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 023/124] fix: log, log2, log10 of subnormal values returned
 NaN

---
 include/kfr/math/impl/log_exp.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 57109b8..0838ae5 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -65,8 +65,9 @@ KFR_INTRINSIC vec<f32, N> vldexpk(const vec<f32, N>& x, const vec<i32, N>& q)
     m                    = (((m + q) >> 6) - m) << 4;
     const vec<i32, N> qq = q - (m << 2);
     m                    = clamp(m + 0x7f, vec<i32, N>(0xff));
-    vec<f32, N> u        = pow4(bitcast<f32>(broadcastto<i32>(m) << 23));
-    return x * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
+    vec<f32, N> u        = sqr(bitcast<f32>(broadcastto<i32>(m) << 23));
+    // u * u overflows for subnormal x and would underflow early for the smallest results
+    return x * u * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
 }
 
 template <size_t N>
@@ -76,8 +77,8 @@ KFR_INTRINSIC vec<f64, N> vldexpk(const vec<f64, N>& x, const vec<i64, N>& q)
     m                    = (((m + q) >> 9) - m) << 7;
     const vec<i64, N> qq = q - (m << 2);
     m                    = clamp(m + 0x3ff, i64(0x7ff));
-    vec<f64, N> u        = pow4(bitcast<f64>(broadcastto<i64>(m) << 52));
-    return x * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
+    vec<f64, N> u        = sqr(bitcast<f64>(broadcastto<i64>(m) << 52));
+    return x * u * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 8a16942b3a98e6b3c84684663428e60eca378014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 024/124] fix: EBU meter reset discarded the packet just
 measured and kept a block and filter state from before it

---
 include/kfr/dsp/ebu.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/kfr/dsp/ebu.hpp b/include/kfr/dsp/ebu.hpp
index b3cfbcd..8310cad 100644
--- a/include/kfr/dsp/ebu.hpp
+++ b/include/kfr/dsp/ebu.hpp
@@ -226,6 +226,7 @@ public:
 
     void reset()
     {
+        m_kfilter = make_kfilter<T>(m_sample_rate);
         std::fill(m_short_sum_of_squares.begin(), m_short_sum_of_squares.end(), T(0));
         std::fill(m_momentary_sum_of_squares.begin(), m_momentary_sum_of_squares.end(), T(0));
     }
@@ -311,6 +312,16 @@ public:
     template <univector_tag Tag>
     void process_packet(const std::vector<univector<T, Tag>>& source)
     {
+        if (m_need_reset)
+        {
+            m_need_reset = false;
+            for (size_t ch = 0; ch < m_channels.size(); ch++)
+            {
+                m_channels[ch].reset();
+            }
+            m_integrated_buffer.reset();
+            m_lra_buffer.reset();
+        }
         T momentary = 0;
         T shortterm = 0;
         for (size_t ch = 0; ch < m_channels.size(); ch++)
@@ -327,16 +338,6 @@ public:
             }
         }
 
-        if (m_need_reset)
-        {
-            m_need_reset = false;
-            for (size_t ch = 0; ch < m_channels.size(); ch++)
-            {
-                m_channels[ch].reset();
-            }
-            m_integrated_buffer.reset();
-            m_lra_buffer.reset();
-        }
         if (m_running)
         {
             m_integrated_buffer.push(momentary);
-- 
2.43.0


From 161a217d3759d2c787da944b87832bff2cfcc0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 025/124] fix: FIR design ignored the window at the centre tap

---
 include/kfr/dsp/fir_design.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dsp/fir_design.hpp b/include/kfr/dsp/fir_design.hpp
index 827457c..8fdcb55 100644
--- a/include/kfr/dsp/fir_design.hpp
+++ b/include/kfr/dsp/fir_design.hpp
@@ -43,7 +43,7 @@ void fir_lowpass(univector_ref<T> taps, T cutoff, const expression_handle<T>& wi
            scale * window;
 
     if (is_odd(taps.size()))
-        taps[taps.size() / 2] = scale;
+        taps[taps.size() / 2] = scale * get_element(window, shape<1>(taps.size() / 2));
 
     if (normalize)
     {
@@ -59,7 +59,7 @@ void fir_highpass(univector_ref<T> taps, T cutoff, const expression_handle<T>& w
            scale * window;
 
     if (is_odd(taps.size()))
-        taps[taps.size() / 2] = 1 - 2.0 * cutoff;
+        taps[taps.size() / 2] = (1 - 2.0 * cutoff) * get_element(window, shape<1>(taps.size() / 2));
 
     if (normalize)
     {
@@ -83,7 +83,7 @@ void fir_bandpass(univector_ref<T> taps, T frequency1, T frequency2, const expre
            window;
 
     if (is_odd(taps.size()))
-        taps[taps.size() / 2] = 2 * (frequency2 - frequency1);
+        taps[taps.size() / 2] = 2 * (frequency2 - frequency1) * get_element(window, shape<1>(taps.size() / 2));
 
     if (normalize)
     {
@@ -107,7 +107,7 @@ void fir_bandstop(univector_ref<T> taps, T frequency1, T frequency2, const expre
            window;
 
     if (is_odd(taps.size()))
-        taps[taps.size() / 2] = 1 - 2 * (frequency2 - frequency1);
+        taps[taps.size() / 2] = (1 - 2 * (frequency2 - frequency1)) * get_element(window, shape<1>(taps.size() / 2));
 
     if (normalize)
     {
-- 
2.43.0


From f5f354b1341581f0b045cb6f7cc33a4c513ef616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 026/124] fix: gather_stride and scatter_stride of groups did
 not compile or used wrong offsets

---
 include/kfr/simd/read_write.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index 1337e17..7c9a335 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -106,7 +106,7 @@ KFR_INTRINSIC vec<T, Nout> gather_stride(const T* base, csizes_t<Indices...>)
     return make_vector(base[Indices * Stride]...);
 }
 template <size_t Nout, size_t groupsize, typename T, size_t... Indices>
-KFR_INTRINSIC vec<T, Nout> gather_stride_s(const T* base, size_t stride, csizes_t<Indices...>)
+KFR_INTRINSIC vec<T, Nout * groupsize> gather_stride_s(const T* base, size_t stride, csizes_t<Indices...>)
 {
     return concat(read<groupsize>(base + Indices * groupsize * stride)...);
 }
@@ -125,7 +125,7 @@ KFR_INTRINSIC vec<T, Nout * groupsize> gather_stride(const T* base, size_t strid
     {
         constexpr size_t Nlow = prev_poweroftwo(Nout - 1);
         return concat(internal::gather_stride_s<Nlow, groupsize>(base, stride, csizeseq<Nlow>),
-                      internal::gather_stride_s<Nout - Nlow, groupsize>(base + Nlow * stride, stride,
+                      internal::gather_stride_s<Nout - Nlow, groupsize>(base + Nlow * groupsize * stride, stride,
                                                                         csizeseq<Nout - Nlow>));
     }
     else
@@ -183,8 +183,10 @@ KFR_INTRINSIC void scatter_stride(T* base, const vec<T, N>& value, size_t stride
     if constexpr (Nout > 2)
     {
         constexpr size_t Nlow = prev_poweroftwo(Nout - 1);
-        internal::scatter_helper_s<groupsize>(base, stride, slice<0, Nlow>(value), csizeseq<Nlow>);
-        internal::scatter_helper_s<groupsize>(base + Nlow * stride, stride, slice<Nlow, Nout - Nlow>(value),
+        internal::scatter_helper_s<groupsize>(base, stride, slice<0, Nlow * groupsize>(value),
+                                              csizeseq<Nlow>);
+        internal::scatter_helper_s<groupsize>(base + Nlow * groupsize * stride, stride,
+                                              slice<Nlow * groupsize, (Nout - Nlow) * groupsize>(value),
                                               csizeseq<(Nout - Nlow)>);
     }
     else
-- 
2.43.0


From 106b9273d81586f42bc2ef3a5fe52d47831ef515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 027/124] fix: copysign of vectors dropped the magnitude

---
 include/kfr/simd/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index 2b0c9bb..40d98cf 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -593,7 +593,7 @@ KFR_FN(mulsign)
 template <typename T, size_t N>
 constexpr KFR_INTRINSIC vec<T, N> copysign(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return (x & special_constants<T>::highbitmask()) | (y & special_constants<T>::highbitmask());
+    return (x & special_constants<T>::invhighbitmask()) | (y & special_constants<T>::highbitmask());
 }
 
 /// @brief Swap byte order
-- 
2.43.0


From 5adaf225cfa11ec009cad5b994fb845028dbcd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 028/124] fix: isnegative and ispositive of floating point
 vectors ignored the sign

---
 include/kfr/simd/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/comparison.hpp b/include/kfr/simd/comparison.hpp
index 573090c..efe3773 100644
--- a/include/kfr/simd/comparison.hpp
+++ b/include/kfr/simd/comparison.hpp
@@ -92,7 +92,7 @@ KFR_INTRINSIC mask<T, N> isfinite(const vec<T, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC mask<T, N> isnegative(const vec<T, N>& x)
 {
-    return (x & special_constants<T>::highbitmask()) != 0;
+    return bitcast<T>((ibitcast(x) < itype<T>(0)).asvec()).asmask();
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 849abb2aebc7306e997dbf76b0ae69ef374bf407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 029/124] fix: postfix ++ and -- of vector elements returned
 the new value

---
 include/kfr/simd/vec.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/simd/vec.hpp b/include/kfr/simd/vec.hpp
index 3e361f3..428eb43 100644
--- a/include/kfr/simd/vec.hpp
+++ b/include/kfr/simd/vec.hpp
@@ -564,14 +564,14 @@ struct alignas(internal::vec_alignment<T, N_>) vec
         }
         KFR_MEM_INTRINSIC value_type operator++(int) CMT_NOEXCEPT
         {
-            value_type val = v.get(index) + 1;
-            v.set(index, val);
+            value_type val = v.get(index);
+            v.set(index, val + 1);
             return val;
         }
         KFR_MEM_INTRINSIC value_type operator--(int) CMT_NOEXCEPT
         {
-            value_type val = v.get(index) - 1;
-            v.set(index, val);
+            value_type val = v.get(index);
+            v.set(index, val - 1);
             return val;
         }
 
-- 
2.43.0


From e64eed43a0a2e617cabf2db0f5fcbcf628ced0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 030/124] fix: aligned loads and stores of vectors of other
 than power of two widths accessed more elements

---
 include/kfr/simd/impl/read_write.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/read_write.hpp b/include/kfr/simd/impl/read_write.hpp
index e5cb538..7a2adf5 100644
--- a/include/kfr/simd/impl/read_write.hpp
+++ b/include/kfr/simd/impl/read_write.hpp
@@ -387,13 +387,19 @@ KFR_INTRINSIC void write(cunaligned_t, T* dest, const vec<T, N>& x) CMT_NOEXCEPT
 template <size_t N, typename T>
 KFR_INTRINSIC vec<T, N> read(caligned_t, csize_t<N>, const T* __restrict ptr) CMT_NOEXCEPT
 {
-    return *reinterpret_cast<const typename vec<T, N>::simd_type*>(ptr);
+    if constexpr (is_poweroftwo(N))
+        return *reinterpret_cast<const typename vec<T, N>::simd_type*>(ptr);
+    else // the vector type is wider than N elements
+        return read(cunaligned, csize<N>, ptr);
 }
 
 template <size_t N, typename T>
 KFR_INTRINSIC void write(caligned_t, T* __restrict ptr, const vec<T, N>& __restrict x) CMT_NOEXCEPT
 {
-    *reinterpret_cast<typename vec<T, N>::simd_type*>(ptr) = x.v;
+    if constexpr (is_poweroftwo(N))
+        *reinterpret_cast<typename vec<T, N>::simd_type*>(ptr) = x.v;
+    else // the vector type is wider than N elements
+        write(cunaligned, ptr, x);
 }
 
 } // namespace intrinsics
-- 
2.43.0


From adb08e496556e1eb9047e7b654bd7504b7cfcfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 031/124] fix: generic AVX comparison != was false for NaN

---
 include/kfr/simd/impl/basicoperators_generic.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/simd/impl/basicoperators_generic.hpp b/include/kfr/simd/impl/basicoperators_generic.hpp
index 5da2829..da8db60 100644
--- a/include/kfr/simd/impl/basicoperators_generic.hpp
+++ b/include/kfr/simd/impl/basicoperators_generic.hpp
@@ -527,8 +527,8 @@ KFR_INTRINSIC __m256i _mm256_highbit_epi64() { return _mm256_set1_epi64x(0x80000
 
 KFR_INTRINSIC f32avx eq(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_EQ_OQ); }
 KFR_INTRINSIC f64avx eq(const f64avx& x, const f64avx& y) { return _mm256_cmp_pd(x.v, y.v, _CMP_EQ_OQ); }
-KFR_INTRINSIC f32avx ne(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_NEQ_OQ); }
-KFR_INTRINSIC f64avx ne(const f64avx& x, const f64avx& y) { return _mm256_cmp_pd(x.v, y.v, _CMP_NEQ_OQ); }
+KFR_INTRINSIC f32avx ne(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_NEQ_UQ); }
+KFR_INTRINSIC f64avx ne(const f64avx& x, const f64avx& y) { return _mm256_cmp_pd(x.v, y.v, _CMP_NEQ_UQ); }
 KFR_INTRINSIC f32avx lt(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_LT_OQ); }
 KFR_INTRINSIC f64avx lt(const f64avx& x, const f64avx& y) { return _mm256_cmp_pd(x.v, y.v, _CMP_LT_OQ); }
 KFR_INTRINSIC f32avx gt(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_GT_OQ); }
@@ -999,11 +999,11 @@ KFR_INTRINSIC f64avx512 eq(const f64avx512& x, const f64avx512& y)
 }
 KFR_INTRINSIC f32avx512 ne(const f32avx512& x, const f32avx512& y)
 {
-    return _mm512_castsi512_ps(_mm512_movm_epi32(_mm512_cmp_ps_mask(x.v, y.v, _CMP_NEQ_OQ)));
+    return _mm512_castsi512_ps(_mm512_movm_epi32(_mm512_cmp_ps_mask(x.v, y.v, _CMP_NEQ_UQ)));
 }
 KFR_INTRINSIC f64avx512 ne(const f64avx512& x, const f64avx512& y)
 {
-    return _mm512_castsi512_pd(_mm512_movm_epi64(_mm512_cmp_pd_mask(x.v, y.v, _CMP_NEQ_OQ)));
+    return _mm512_castsi512_pd(_mm512_movm_epi64(_mm512_cmp_pd_mask(x.v, y.v, _CMP_NEQ_UQ)));
 }
 KFR_INTRINSIC f32avx512 lt(const f32avx512& x, const f32avx512& y)
 {
-- 
2.43.0


From 1e2a4fc049ba4889ce0b864f62cca73500533a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 032/124] fix: generic uniform shifts of 8-bit vectors moved
 and saturated the wrong bits

---
 .../kfr/simd/impl/basicoperators_generic.hpp  | 66 +++++++++----------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/include/kfr/simd/impl/basicoperators_generic.hpp b/include/kfr/simd/impl/basicoperators_generic.hpp
index da8db60..1eb653f 100644
--- a/include/kfr/simd/impl/basicoperators_generic.hpp
+++ b/include/kfr/simd/impl/basicoperators_generic.hpp
@@ -192,38 +192,38 @@ KFR_INTRINSIC u8sse shl(const u8sse& x, unsigned y)
     __m128i l = _mm_unpacklo_epi8(_mm_setzero_si128(), x.v);
     __m128i h = _mm_unpackhi_epi8(_mm_setzero_si128(), x.v);
 
-    __m128i ll = _mm_slli_epi16(l, y);
-    __m128i hh = _mm_slli_epi16(h, y);
+    __m128i ll = _mm_srli_epi16(_mm_slli_epi16(l, y), 8);
+    __m128i hh = _mm_srli_epi16(_mm_slli_epi16(h, y), 8);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8sse shl(const i8sse& x, unsigned y)
 {
     __m128i l = _mm_unpacklo_epi8(_mm_setzero_si128(), x.v);
     __m128i h = _mm_unpackhi_epi8(_mm_setzero_si128(), x.v);
 
-    __m128i ll = _mm_slli_epi16(l, y);
-    __m128i hh = _mm_slli_epi16(h, y);
+    __m128i ll = _mm_srli_epi16(_mm_slli_epi16(l, y), 8);
+    __m128i hh = _mm_srli_epi16(_mm_slli_epi16(h, y), 8);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC u8sse shr(const u8sse& x, unsigned y)
 {
     __m128i l = _mm_unpacklo_epi8(_mm_setzero_si128(), x.v);
     __m128i h = _mm_unpackhi_epi8(_mm_setzero_si128(), x.v);
 
-    __m128i ll = _mm_srli_epi16(l, y);
-    __m128i hh = _mm_srli_epi16(h, y);
+    __m128i ll = _mm_srli_epi16(l, y + 8);
+    __m128i hh = _mm_srli_epi16(h, y + 8);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8sse shr(const i8sse& x, unsigned y)
 {
     __m128i l = _mm_unpacklo_epi8(_mm_setzero_si128(), x.v);
     __m128i h = _mm_unpackhi_epi8(_mm_setzero_si128(), x.v);
 
-    __m128i ll = _mm_srai_epi16(l, y);
-    __m128i hh = _mm_srai_epi16(h, y);
+    __m128i ll = _mm_srai_epi16(l, y + 8);
+    __m128i hh = _mm_srai_epi16(h, y + 8);
 
     return _mm_packs_epi16(ll, hh);
 }
@@ -689,35 +689,35 @@ KFR_INTRINSIC u8avx shl(const u8avx& x, unsigned y)
 {
     __m256i l  = _mm256_unpacklo_epi8(_mm256_setzero_si256(), x.v);
     __m256i h  = _mm256_unpackhi_epi8(_mm256_setzero_si256(), x.v);
-    __m256i ll = _mm256_slli_epi16(l, y);
-    __m256i hh = _mm256_slli_epi16(h, y);
+    __m256i ll = _mm256_srli_epi16(_mm256_slli_epi16(l, y), 8);
+    __m256i hh = _mm256_srli_epi16(_mm256_slli_epi16(h, y), 8);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8avx shl(const i8avx& x, unsigned y)
 {
     __m256i l  = _mm256_unpacklo_epi8(_mm256_setzero_si256(), x.v);
     __m256i h  = _mm256_unpackhi_epi8(_mm256_setzero_si256(), x.v);
-    __m256i ll = _mm256_slli_epi16(l, y);
-    __m256i hh = _mm256_slli_epi16(h, y);
+    __m256i ll = _mm256_srli_epi16(_mm256_slli_epi16(l, y), 8);
+    __m256i hh = _mm256_srli_epi16(_mm256_slli_epi16(h, y), 8);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC u8avx shr(const u8avx& x, unsigned y)
 {
     __m256i l  = _mm256_unpacklo_epi8(_mm256_setzero_si256(), x.v);
     __m256i h  = _mm256_unpackhi_epi8(_mm256_setzero_si256(), x.v);
-    __m256i ll = _mm256_srli_epi16(l, y);
-    __m256i hh = _mm256_srli_epi16(h, y);
+    __m256i ll = _mm256_srli_epi16(l, y + 8);
+    __m256i hh = _mm256_srli_epi16(h, y + 8);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8avx shr(const i8avx& x, unsigned y)
 {
     __m256i l  = _mm256_unpacklo_epi8(_mm256_setzero_si256(), x.v);
     __m256i h  = _mm256_unpackhi_epi8(_mm256_setzero_si256(), x.v);
-    __m256i ll = _mm256_srai_epi16(l, y);
-    __m256i hh = _mm256_srai_epi16(h, y);
+    __m256i ll = _mm256_srai_epi16(l, y + 8);
+    __m256i hh = _mm256_srai_epi16(h, y + 8);
 
     return _mm256_packs_epi16(ll, hh);
 }
@@ -1359,35 +1359,35 @@ KFR_INTRINSIC u8avx512 shl(const u8avx512& x, unsigned y)
 {
     __m512i l  = _mm512_unpacklo_epi8(_mm512_setzero_si512(), x.v);
     __m512i h  = _mm512_unpackhi_epi8(_mm512_setzero_si512(), x.v);
-    __m512i ll = _mm512_slli_epi16(l, y);
-    __m512i hh = _mm512_slli_epi16(h, y);
+    __m512i ll = _mm512_srli_epi16(_mm512_slli_epi16(l, y), 8);
+    __m512i hh = _mm512_srli_epi16(_mm512_slli_epi16(h, y), 8);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8avx512 shl(const i8avx512& x, unsigned y)
 {
     __m512i l  = _mm512_unpacklo_epi8(_mm512_setzero_si512(), x.v);
     __m512i h  = _mm512_unpackhi_epi8(_mm512_setzero_si512(), x.v);
-    __m512i ll = _mm512_slli_epi16(l, y);
-    __m512i hh = _mm512_slli_epi16(h, y);
+    __m512i ll = _mm512_srli_epi16(_mm512_slli_epi16(l, y), 8);
+    __m512i hh = _mm512_srli_epi16(_mm512_slli_epi16(h, y), 8);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC u8avx512 shr(const u8avx512& x, unsigned y)
 {
     __m512i l  = _mm512_unpacklo_epi8(_mm512_setzero_si512(), x.v);
     __m512i h  = _mm512_unpackhi_epi8(_mm512_setzero_si512(), x.v);
-    __m512i ll = _mm512_srli_epi16(l, y);
-    __m512i hh = _mm512_srli_epi16(h, y);
+    __m512i ll = _mm512_srli_epi16(l, y + 8);
+    __m512i hh = _mm512_srli_epi16(h, y + 8);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8avx512 shr(const i8avx512& x, unsigned y)
 {
     __m512i l  = _mm512_unpacklo_epi8(_mm512_setzero_si512(), x.v);
     __m512i h  = _mm512_unpackhi_epi8(_mm512_setzero_si512(), x.v);
-    __m512i ll = _mm512_srai_epi16(l, y);
-    __m512i hh = _mm512_srai_epi16(h, y);
+    __m512i ll = _mm512_srai_epi16(l, y + 8);
+    __m512i hh = _mm512_srai_epi16(h, y + 8);
 
     return _mm512_packs_epi16(ll, hh);
 }
-- 
2.43.0


From b37a0db76047b5f02e51892f531025f47898f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 033/124] fix: all() of AVX512 floating point masks was always
 false

---
 include/kfr/simd/impl/logical.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/logical.hpp b/include/kfr/simd/impl/logical.hpp
index a511088..89019de 100644
--- a/include/kfr/simd/impl/logical.hpp
+++ b/include/kfr/simd/impl/logical.hpp
@@ -108,11 +108,11 @@ KFR_INTRINSIC bool bittestany(const mi64avx512& x) { return _mm512_movepi64_mask
 // horizontal AND
 KFR_INTRINSIC bool bittestall(const mf32avx512& x)
 {
-    return !~_mm512_movepi32_mask(_mm512_castps_si512(x.v));
+    return !uint16_t(~_mm512_movepi32_mask(_mm512_castps_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mf64avx512& x)
 {
-    return !~_mm512_movepi64_mask(_mm512_castpd_si512(x.v));
+    return !uint8_t(~_mm512_movepi64_mask(_mm512_castpd_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mu8avx512& x) { return !~_mm512_movepi8_mask(x.v); }
 KFR_INTRINSIC bool bittestall(const mu16avx512& x) { return !~_mm512_movepi16_mask(x.v); }
-- 
2.43.0


From 29f1408be9f668b5db6115da30f0aec652c0f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 034/124] fix: replace<start, count> of vectors did not compile

---
 include/kfr/simd/shuffle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/shuffle.hpp b/include/kfr/simd/shuffle.hpp
index a83f9f8..86d0e78 100644
--- a/include/kfr/simd/shuffle.hpp
+++ b/include/kfr/simd/shuffle.hpp
@@ -215,7 +215,7 @@ KFR_FN(slice)
 template <size_t start, size_t count, typename T, size_t N>
 KFR_INTRINSIC vec<T, N> replace(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return x.shuffle(y, csizeseq<N> + (csizeseq<N> >= csize<start> && csizeseq<N> < csize<start + count>)*N);
+    return x.shuffle(y, csizeseq<N> + (csizeseq<N> >= csize<start> && csizeseq<N> < csize<start + count>) * csize<N>);
 }
 KFR_FN(replace)
 
-- 
2.43.0


From 9c11b91c06e10da8ca678c12bf2aa92864627553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 035/124] fix: shuffles within halves of AVX vectors were zero
 in the generic backend (GCC)

---
 include/kfr/simd/impl/backend_generic.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/kfr/simd/impl/backend_generic.hpp b/include/kfr/simd/impl/backend_generic.hpp
index 1a21f55..f9c524a 100644
--- a/include/kfr/simd/impl/backend_generic.hpp
+++ b/include/kfr/simd/impl/backend_generic.hpp
@@ -1727,7 +1727,8 @@ KFR_INTRINSIC simd<float, 8> simd_vec_shuffle(simd_t<float, 8>, const simd<float
                                                       csizes<I0, I1, I2, I3>),
                                     universal_shuffle(simd_t<float, 4>{},
                                                       simd_get_high(simd_t<float, 8>{}, x),
-                                                      csizes<I4, I5, I6, I7>));
+                                                      csizes<(I4 < 8 ? I4 - 4 : I4), (I5 < 8 ? I5 - 4 : I5),
+                                                             (I6 < 8 ? I6 - 4 : I6), (I7 < 8 ? I7 - 4 : I7)>));
         }
     }
     else
@@ -1754,11 +1755,11 @@ KFR_INTRINSIC simd<double, 4> simd_vec_shuffle(simd_t<double, 4>, const simd<dou
             universal_shuffle(simd_t<double, 2>{}, simd_get_low(simd_t<double, 4>{}, x), csizes<I0, I1>);
         return simd_from_halves(simd_t<double, 4>{}, tmp, tmp);
     }
-    else if constexpr (cmaxof(csizes<I0, I1>) < 4 && cminof(csizes<I2, I3>) >= 4)
+    else if constexpr (cmaxof(csizes<I0, I1>) < 2 && cminof(csizes<I2, I3>) >= 2)
     {
-        if constexpr (csizes<I0, I1, I2, I3>.equal(csizes<I0, I1, I2 + 2, I3 + 2>))
+        if constexpr (csizes<I0, I1, I2, I3>.equal(csizes<I0, I1, I0 + 2, I1 + 2>))
         {
-            return _mm256_shuffle_pd(x, x, (shuffle_mask<2, I0, I1>::value));
+            return _mm256_shuffle_pd(x, x, (shuffle_mask<4, I0, I1, I0, I1>::value));
         }
         else
         {
@@ -1766,7 +1767,7 @@ KFR_INTRINSIC simd<double, 4> simd_vec_shuffle(simd_t<double, 4>, const simd<dou
                 simd_t<double, 4>{},
                 universal_shuffle(simd_t<double, 2>{}, simd_get_low(simd_t<double, 4>{}, x), csizes<I0, I1>),
                 universal_shuffle(simd_t<double, 2>{}, simd_get_high(simd_t<double, 4>{}, x),
-                                  csizes<I2, I3>));
+                                  csizes<(I2 < 4 ? I2 - 2 : I2), (I3 < 4 ? I3 - 2 : I3)>));
         }
     }
     else
-- 
2.43.0


From 879f309c92f6ad8781ae69a5778244bce7df5845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 036/124] fix: reverse of a vector of vectors of 3, 5, 6...
 elements moved elements between inner vectors

---
 include/kfr/simd/shuffle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/simd/shuffle.hpp b/include/kfr/simd/shuffle.hpp
index 86d0e78..26aca93 100644
--- a/include/kfr/simd/shuffle.hpp
+++ b/include/kfr/simd/shuffle.hpp
@@ -571,7 +571,9 @@ KFR_INTRINSIC vec<T, N> reverse(const vec<T, N>& x)
 template <size_t group = 1, typename T, size_t N1, size_t N2>
 KFR_INTRINSIC vec<vec<T, N1>, N2> reverse(const vec<vec<T, N1>, N2>& x)
 {
-    return swap<N1>(x.flatten()).v;
+    return x.flatten()
+        .shuffle(csizeseq<N1 * N2> / csize<N1> * csize<N1> + (csize<N1 - 1> - csizeseq<N1 * N2> % csize<N1>))
+        .v;
 }
 KFR_FN(reverse)
 
-- 
2.43.0


From 1f474d4b39043923a67ee15690d832e98989e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 037/124] fix: satadd and satsub of 32- and 64-bit integers
 returned the first operand instead of the limit

---
 include/kfr/simd/impl/saturation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/saturation.hpp b/include/kfr/simd/impl/saturation.hpp
index 57da206..551acad 100644
--- a/include/kfr/simd/impl/saturation.hpp
+++ b/include/kfr/simd/impl/saturation.hpp
@@ -45,7 +45,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_add(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> sum   = aa + bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), a, bitcast<T>(sum));
+    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), bitcast<T>(aa), bitcast<T>(sum));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>& b)
@@ -57,7 +57,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> diff  = aa - bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), a, bitcast<T>(diff));
+    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), bitcast<T>(aa), bitcast<T>(diff));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_unsigned_add(const vec<T, N>& a, const vec<T, N>& b)
-- 
2.43.0


From 1dc60278403cd2b9815edb54d44e3faa76fb0cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 038/124] fix: SSE2 floor, ceil, trunc and round of NaN were
 -2^31 or -2^63; round(0.49999997) was 1 and ties went away from zero, unlike
 other instruction sets

---
 include/kfr/simd/impl/round.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/kfr/simd/impl/round.hpp b/include/kfr/simd/impl/round.hpp
index d20ad45..0f665d5 100644
--- a/include/kfr/simd/impl/round.hpp
+++ b/include/kfr/simd/impl/round.hpp
@@ -141,47 +141,49 @@ template <size_t N>
 KFR_INTRINSIC vec<f32, N> floor(const vec<f32, N>& x)
 {
     vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) >= fp_precision_limit<f32>, x, t - select(x < t, 1.f, 0.f));
+    return select(abs(x) < fp_precision_limit<f32>, t - select(x < t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> floor(const vec<f64, N>& x)
 {
     vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) >= fp_precision_limit<f64>, x, t - select(x < t, 1., 0.));
+    return select(abs(x) < fp_precision_limit<f64>, t - select(x < t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> ceil(const vec<f32, N>& x)
 {
     vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) >= fp_precision_limit<f32>, x, t + select(x > t, 1.f, 0.f));
+    return select(abs(x) < fp_precision_limit<f32>, t + select(x > t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> ceil(const vec<f64, N>& x)
 {
     vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) >= fp_precision_limit<f64>, x, t + select(x > t, 1., 0.));
+    return select(abs(x) < fp_precision_limit<f64>, t + select(x > t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> round(const vec<f32, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f32>, x,
-                  broadcastto<f32>(broadcastto<i32>(x + mulsign(broadcast<N>(0.5f), x))));
+    // to nearest, ties to even, like the other instruction sets
+    const vec<f32, N> magic = mulsign(broadcast<N>(8388608.f), x);
+    return select(abs(x) < 8388608.f, (x + magic) - magic, x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> round(const vec<f64, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f64>, x,
-                  broadcastto<f64>(broadcastto<i64>(x + mulsign(broadcast<N>(0.5), x))));
+    // to nearest, ties to even, like the other instruction sets
+    const vec<f64, N> magic = mulsign(broadcast<N>(4503599627370496.0), x);
+    return select(abs(x) < 4503599627370496.0, (x + magic) - magic, x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> trunc(const vec<f32, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f32>, x, broadcastto<f32>(broadcastto<i32>(x)));
+    return select(abs(x) < fp_precision_limit<f32>, broadcastto<f32>(broadcastto<i32>(x)), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> trunc(const vec<f64, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f64>, x, broadcastto<f64>(broadcastto<i64>(x)));
+    return select(abs(x) < fp_precision_limit<f64>, broadcastto<f64>(broadcastto<i64>(x)), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> fract(const vec<f32, N>& x)
-- 
2.43.0


From 6b5513c394f03ac7e840520400ff4f4e02ac404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 039/124] fix: histogram counted the highest integer as below
 the range; havg of negative integers was wrong

---
 include/kfr/base/reduce.hpp     | 4 ++--
 include/kfr/simd/horizontal.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/reduce.hpp b/include/kfr/base/reduce.hpp
index 67ba03a..32185ee 100644
--- a/include/kfr/base/reduce.hpp
+++ b/include/kfr/base/reduce.hpp
@@ -193,8 +193,8 @@ struct histogram_data
         }
         else
         {
-            const vec<T, N> x = 1 + value;
-            indices           = cast<uint64_t>(clamp(x, T(0), T(size() + 1)));
+            const vec<u64, N> x = cast<uint64_t>(value);
+            indices             = select(value < T(0), 0, 1 + min(x, uint64_t(size())));
         }
         CMT_LOOP_UNROLL
         for (size_t i = 0; i < N; ++i)
diff --git a/include/kfr/simd/horizontal.hpp b/include/kfr/simd/horizontal.hpp
index 38d7e43..b8c2cdd 100644
--- a/include/kfr/simd/horizontal.hpp
+++ b/include/kfr/simd/horizontal.hpp
@@ -203,7 +203,7 @@ KFR_FN(hdot)
 template <typename T, size_t N>
 KFR_INTRINSIC T havg(const vec<T, N>& value)
 {
-    return hadd(value) / N;
+    return hadd(value) / static_cast<std::ptrdiff_t>(N);
 }
 KFR_FN(havg)
 
-- 
2.43.0


From 43f4f5631120a4c74b5bbf11f1d6dc801de431fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 040/124] fix: fastcos did not compile

---
 include/kfr/math/impl/sin_cos.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/kfr/math/impl/sin_cos.hpp b/include/kfr/math/impl/sin_cos.hpp
index 7065169..48e1dc6 100644
--- a/include/kfr/math/impl/sin_cos.hpp
+++ b/include/kfr/math/impl/sin_cos.hpp
@@ -215,9 +215,8 @@ KFR_INTRINSIC vec<T, N> fastsin(const vec<T, N>& x)
 template <typename T, size_t N, KFR_ENABLE_IF(is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> fastcos(const vec<T, N>& x)
 {
-    x += c_pi<T, 1, 2>;
-    x = select(x >= c_pi<T, 2>, x - c_pi<T, 2>, x);
-    return fastsin(x);
+    const vec<T, N> y = x + c_pi<T, 1, 2>;
+    return fastsin(select(y >= c_pi<T, 2>, y - c_pi<T, 2>, y));
 }
 
 template <typename T, size_t N, KFR_ENABLE_IF(N > 1 && is_f_class<T>)>
-- 
2.43.0


From 6633eabea2047ccd44aaa2c99f87000be9096ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 041/124] fix: exp of large negative arguments was infinite:
 -3e9 in f32, -1e20 in f64

---
 include/kfr/math/impl/log_exp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 0838ae5..5274597 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -175,7 +175,8 @@ KFR_INTRINSIC vec<f32, N> exp(const vec<f32, N>& d)
     u = s * s * u + s + 1.0f;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f32>::neginfinity, 0.f, u);
+    // q does not fit the integer when d is large
+    u = select(d < -104.f, 0.f, select(d > 89.f, constants<f32>::infinity, u));
 
     return u;
 }
@@ -216,7 +217,7 @@ KFR_INTRINSIC vec<f64, N> exp(const vec<f64, N>& d)
     u = s * s * u + s + 1.0;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f64>::neginfinity, 0.0, u);
+    u = select(d < -746.0, 0.0, select(d > 710.0, constants<f64>::infinity, u));
 
     return u;
 }
-- 
2.43.0


From 663ff54a787a59b83c3aa0df3cc9a6e424abea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 042/124] fix: tanh and coth of arguments whose exponent
 overflows were NaN

---
 include/kfr/math/impl/hyperbolic.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/hyperbolic.hpp b/include/kfr/math/impl/hyperbolic.hpp
index bd1841d..4442f12 100644
--- a/include/kfr/math/impl/hyperbolic.hpp
+++ b/include/kfr/math/impl/hyperbolic.hpp
@@ -56,14 +56,15 @@ template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> tanh(const vec<T, N>& x)
 {
     const vec<Tout, N> a = exp(2 * x);
-    return (a - 1) / (a + 1);
+    // a may be infinite
+    return select(static_cast<vec<Tout, N>>(x) > Tout(20), Tout(1), (a - 1) / (a + 1));
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> coth(const vec<T, N>& x)
 {
     const vec<Tout, N> a = exp(2 * x);
-    return (a + 1) / (a - 1);
+    return select(static_cast<vec<Tout, N>>(x) > Tout(20), Tout(1), (a + 1) / (a - 1));
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
-- 
2.43.0


From 0f9cecf2a582fecd734191d975e8fbba955b1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 043/124] fix: asin and acos lost half of the digits near the
 ends of the domain

---
 include/kfr/math/impl/asin_acos.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/asin_acos.hpp b/include/kfr/math/impl/asin_acos.hpp
index bc9b2cc..1a4f426 100644
--- a/include/kfr/math/impl/asin_acos.hpp
+++ b/include/kfr/math/impl/asin_acos.hpp
@@ -39,14 +39,14 @@ template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> asin(const vec<T, N>& x)
 {
     const vec<Tout, N> xx = x;
-    return atan2(xx, sqrt(Tout(1) - xx * xx));
+    return atan2(xx, sqrt((Tout(1) - xx) * (Tout(1) + xx)));
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> acos(const vec<T, N>& x)
 {
     const vec<Tout, N> xx = x;
-    return atan2(sqrt(Tout(1) - xx * xx), xx);
+    return atan2(sqrt((Tout(1) - xx) * (Tout(1) + xx)), xx);
 }
 KFR_HANDLE_SCALAR(asin)
 KFR_HANDLE_SCALAR(acos)
-- 
2.43.0


From c79a73d57d728758dca0876babcd131986976f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 044/124] fix: atan2 of negative zero and of infinities took
 the wrong quadrant, so acos(-0.0) was pi

---
 include/kfr/math/impl/atan.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/atan.hpp b/include/kfr/math/impl/atan.hpp
index 9a783b4..9e8e562 100644
--- a/include/kfr/math/impl/atan.hpp
+++ b/include/kfr/math/impl/atan.hpp
@@ -111,8 +111,8 @@ KFR_INTRINSIC vec<f32, N> atan2(const vec<f32, N>& y, const vec<f32, N>& x)
     constexpr f32 pi_over_2 = 1.5707963267948966192313216916398f;
     constexpr f32 pi_over_4 = 0.78539816339744830961566084581988f;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0f), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0f), r);
+    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0f), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0f), r);
     r = select(y == 0.0f, select(x < 0.f, pi, 0.f), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
@@ -126,8 +126,8 @@ KFR_INTRINSIC vec<f64, N> atan2(const vec<f64, N>& y, const vec<f64, N>& x)
     constexpr f64 pi_over_2 = 1.5707963267948966192313216916398;
     constexpr f64 pi_over_4 = 0.78539816339744830961566084581988;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0), r);
+    r = select(isinf(x) || x == 0.0, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0), r);
     r = select(y == 0.0, select(x < 0., pi, 0.), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
-- 
2.43.0


From 29f1087a041b5af4d946dd4b2cc83409d21e561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 045/124] fix: assigning a range which starts at any index
 writes nothing past its end

---
 include/kfr/base/expression.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 34aea3e..8490fe5 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -608,6 +608,8 @@ template <typename Out, typename In, index_t OutAxis, size_t w, size_t gw, typen
 KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t stop, size_t insize,
                                         shape<outdims> outidx, shape<indims> inidx)
 {
+    if (start >= stop)
+        return;
     if constexpr (indims == 0)
     {
         size_t x              = start;
@@ -615,14 +617,14 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; stop - x >= w; x += w)
             {
                 outidx[OutAxis] = x;
                 set_elements(out, outidx, axis_params_v<OutAxis, w>, repeat<w>(val));
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; stop - x >= gw; x += gw)
         {
             outidx[OutAxis] = x;
             set_elements(out, outidx, axis_params_v<OutAxis, gw>, repeat<gw>(val));
@@ -635,7 +637,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; stop - x >= w; x += w)
             {
                 outidx[OutAxis] = x;
                 inidx[InAxis]   = std::min(x, insize - 1);
@@ -645,7 +647,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; stop - x >= gw; x += gw)
         {
             outidx[OutAxis] = x;
             inidx[InAxis]   = std::min(x, insize - 1);
-- 
2.43.0


From 8e8f919adcf78d29982f8e5bdc2e71f64a63c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 046/124] fix: operands are broadcast along the axis being
 processed, whichever it is

---
 include/kfr/base/expression.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 8490fe5..1402d87 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -548,23 +548,29 @@ KFR_MEM_INTRINSIC vec<typename Traits::value_type, N> get_arg(const expression_f
     {
         return repeat<N>(get_elements(std::get<idx>(self.args), {}, axis_params<0, 1>{}));
     }
+    else if constexpr (VecAxis < Dims - Traits::dims)
+    {
+        // the operand doesn't have this dimension
+        auto indices = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
+        return get_elements(std::get<idx>(self.args), indices, axis_params<Traits::dims - 1, 1>{}).front();
+    }
     else
     {
         constexpr size_t NewVecAxis = Traits::dims - (Dims - VecAxis);
         auto indices                = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
-        constexpr index_t last_dim  = Traits::get_shape().back();
-        if constexpr (last_dim != undefined_size)
+        constexpr index_t axis_dim  = Traits::get_shape()[NewVecAxis];
+        if constexpr (axis_dim != undefined_size)
         {
-            constexpr index_t last_dim_pot = prev_poweroftwo(last_dim);
-            return repeat<N / std::min(last_dim_pot, static_cast<index_t>(N))>(
+            constexpr index_t axis_dim_pot = prev_poweroftwo(axis_dim);
+            return repeat<N / std::min(axis_dim_pot, static_cast<index_t>(N))>(
                 get_elements(std::get<idx>(self.args), indices,
-                             axis_params<NewVecAxis, std::min(last_dim_pot, static_cast<index_t>(N))>{}));
+                             axis_params<NewVecAxis, std::min(axis_dim_pot, static_cast<index_t>(N))>{}));
         }
         else
         {
             if constexpr (sizeof...(Args) > 1 && N > 1)
             {
-                if (CMT_UNLIKELY(self.masks[idx].back() == 0))
+                if (CMT_UNLIKELY(self.masks[idx][maximum_dims - Traits::dims + NewVecAxis] == 0))
                     return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, 1>{})
                         .front();
                 else
-- 
2.43.0


From f240f56dd32a567918ce789d318d9dc8d42e8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 047/124] fix: a slice which starts past the end is empty

---
 include/kfr/base/shape.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/shape.hpp b/include/kfr/base/shape.hpp
index 2a95757..c3b05f3 100644
--- a/include/kfr/base/shape.hpp
+++ b/include/kfr/base/shape.hpp
@@ -201,7 +201,7 @@ struct shape : static_array_base<index_t, csizeseq_t<Dims>>
     friend constexpr shape sub_shape(const shape& lhs, const shape& rhs)
     {
         return lhs.bin(rhs, [](index_t x, index_t y)
-                       { return std::max(x, y) == infinite_size ? infinite_size : x - y; });
+                       { return std::max(x, y) == infinite_size ? infinite_size : x > y ? x - y : 0; });
     }
     friend constexpr shape add_shape_undef(const shape& lhs, const shape& rhs)
     {
-- 
2.43.0


From f32de47846fef9704a6a2aff5929a8583e30941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 048/124] fix: reversed and lambda expressions with more than
 one dimension

---
 include/kfr/base/basic_expressions.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index aaed60b..6c3157e 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -316,7 +316,7 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_lambda<T, Dims, Fn, Rnd>&
         for (index_t i = 0; i < N; ++i)
         {
             result[i] = self.fn(cur_index);
-            ++cur_index.back();
+            ++cur_index[Axis];
         }
         return result;
     }
@@ -450,7 +450,9 @@ template <typename Arg, index_t Axis, size_t N, typename Traits = expression_tra
 KFR_INTRINSIC vec<T, N> get_elements(const expression_reverse<Arg>& self, const shape<Traits::dims>& index,
                                      const axis_params<Axis, N>& sh)
 {
-    return reverse(get_elements(self.first(), self.input_shape.sub(index).sub(shape<Traits::dims>(N)), sh));
+    shape<Traits::dims> first = self.input_shape.sub(index).sub(shape<Traits::dims>(1));
+    first[Axis] -= N - 1;
+    return get_elements(self.first(), first, sh).shuffle(csizeseq<N, N - 1, -1>);
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From face2072f255ab2bc9d2661887ebad2ce791290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 049/124] fix: reshape and concatenate take the shape of an
 operand before it is moved from

---
 include/kfr/base/basic_expressions.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 6c3157e..cacaf77 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -548,8 +548,8 @@ struct expression_reshape : public expression_with_arguments<Arg>
     shape<OutDims> out_shape;
 
     KFR_MEM_INTRINSIC expression_reshape(Arg&& arg, const shape<OutDims>& out_shape)
-        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) }, in_shape(ArgTraits::get_shape(arg)),
-          out_shape(out_shape)
+        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) },
+          in_shape(ArgTraits::get_shape(this->first())), out_shape(out_shape)
     {
     }
 };
@@ -782,7 +782,7 @@ struct expression_concatenate : public expression_with_arguments<Arg1, Arg2>
 
     KFR_MEM_INTRINSIC expression_concatenate(Arg1&& arg1, Arg2&& arg2)
         : expression_with_arguments<Arg1, Arg2>{ std::forward<Arg1>(arg1), std::forward<Arg2>(arg2) },
-          size1(expression_traits<Arg1>::get_shape(arg1))
+          size1(expression_traits<Arg1>::get_shape(this->first()))
     {
     }
 };
-- 
2.43.0


From 675c80a651ffd6b489665523b0e38adeebd71fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 050/124] fix: dimensions() reads its operand along the axis of
 the operand

---
 include/kfr/base/basic_expressions.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index cacaf77..d231d85 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -1053,13 +1053,15 @@ struct expression_dimensions : public expression_with_traits<E>
                                                          axis_params<VecAxis, N> sh)
     {
         shape<in_dims> inindex = index.template trim<in_dims>();
-        if constexpr (VecAxis >= in_dims)
+        if constexpr (VecAxis < dims - in_dims)
         {
-            return repeat<N>(get_elements(self.first(), inindex, axis_params_v<0, 1>));
+            // the added dimensions come first
+            constexpr index_t last_axis = in_dims > 0 ? in_dims - 1 : 0;
+            return get_elements(self.first(), inindex, axis_params_v<last_axis, 1>).front();
         }
         else
         {
-            return get_elements(self.first(), inindex, sh);
+            return get_elements(self.first(), inindex, axis_params_v<VecAxis - (dims - in_dims), N>);
         }
     }
 };
-- 
2.43.0


From 24cce2d98f07df2b3af45eb3e29930ea4a4964f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 051/124] fix: reshape copies elements one by one unless they
 really lie along one axis

---
 include/kfr/base/basic_expressions.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index d231d85..1bef81f 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -603,19 +603,16 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_reshape<Arg, outdims>& sel
         vec<T, N> result;
         bool done = false;
 
-        if (diff_idx.sum() == N - 1)
-        {
-            cforeach(cvalseq_t<index_t, indims, 0>{},
-                     [&](auto n) CMT_INLINE_LAMBDA
+        cforeach(cvalseq_t<index_t, indims, 0>{},
+                 [&](auto n) CMT_INLINE_LAMBDA
+                 {
+                     constexpr index_t axis = val_of<decltype(n)>({});
+                     if (!done && diff_idx == shape<indims>(0).add_at(N - 1, cindex<axis>))
                      {
-                         constexpr index_t axis = val_of<decltype(n)>({});
-                         if (!done && diff_idx[axis] == N - 1)
-                         {
-                             result = get_elements(self.first(), first_idx, axis_params<axis, N>{});
-                             done   = true;
-                         }
-                     });
-        }
+                         result = get_elements(self.first(), first_idx, axis_params<axis, N>{});
+                         done   = true;
+                     }
+                 });
 
         if (!done)
         {
@@ -661,7 +658,7 @@ KFR_INTRINSIC void set_elements(expression_reshape<Arg, outdims>& self, const sh
                  [&](auto n) CMT_INLINE_LAMBDA
                  {
                      constexpr index_t axis = val_of<decltype(n)>({});
-                     if (!done && diff_idx[axis] == N - 1)
+                     if (!done && diff_idx == shape<indims>(0).add_at(N - 1, cindex<axis>))
                      {
                          set_elements(self.first(), first_idx, axis_params<axis, N>{}, value);
                          done = true;
-- 
2.43.0


From 819cf53df634f24d02fe7dd5cc44391fe83f7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 052/124] fix: unpacking and assignment to packed expressions
 of complex elements mixed their parts

---
 include/kfr/base/basic_expressions.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 1bef81f..c1712a4 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -889,7 +889,8 @@ KFR_INTRINSIC void set_elements_packed(expression_function<fn::packtranspose, Ar
 {
     constexpr size_t count          = sizeof...(Args);
     using ST                        = subtype<typename Tr::value_type>;
-    const vec<vec<ST, N>, count> xx = vec<vec<ST, N>, count>::from_flatten(transpose<count>(flatten(x)));
+    const vec<vec<ST, N>, count> xx = vec<vec<ST, N>, count>::from_flatten(
+        transpose<count, compound_type_traits<ST>::deep_width>(flatten(x)));
     (set_elements(std::get<Indices>(self.args), index, sh, xx[Indices]), ...);
 }
 } // namespace internal
@@ -947,7 +948,8 @@ private:
                                   csizes_t<indices...>)
     {
         const vec<vec<first_value_type, N>, count> xx =
-            vec<vec<first_value_type, N>, count>::from_flatten(transpose<count>(flatten(x)));
+            vec<vec<first_value_type, N>, count>::from_flatten(
+                transpose<count, compound_type_traits<first_value_type>::deep_width>(flatten(x)));
         (set_elements(std::get<indices>(this->args), index, sh, xx[indices]), ...);
     }
 };
-- 
2.43.0


From 00400cb5a97bc91076d4c278b9b268d44a0c4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 053/124] fix: reading and writing elements with padding
 (vec<T, 3>) treated them as contiguous

---
 include/kfr/simd/read_write.hpp | 35 ++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index 7c9a335..2f406f9 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -33,17 +33,40 @@ namespace kfr
 inline namespace CMT_ARCH_NAME
 {
 
+namespace internal
+{
+/// An element such as vec<T, 3> occupies more memory than its lanes take: the flattened
+/// lanes of consecutive elements are not contiguous
+template <typename T>
+constexpr inline bool is_padded_element = sizeof(T) != size_of<T>();
+
+template <typename T, size_t... Indices>
+KFR_INTRINSIC vec<T, sizeof...(Indices)> read_padded(const T* src, csizes_t<Indices...>)
+{
+    return vec<T, sizeof...(Indices)>::from_flatten(concat(src[Indices].flatten()...));
+}
+} // namespace internal
+
 template <size_t N, bool A = false, typename T>
 KFR_INTRINSIC vec<T, N> read(const T* src)
 {
-    return vec<T, N>::from_flatten(intrinsics::read(cbool<A>, csize<N * compound_type_traits<T>::deep_width>,
-                                                    ptr_cast<deep_subtype<T>>(src)));
+    if constexpr (internal::is_padded_element<T>)
+        return internal::read_padded(src, csizeseq<N>);
+    else
+        return vec<T, N>::from_flatten(intrinsics::read(
+            cbool<A>, csize<N * compound_type_traits<T>::deep_width>, ptr_cast<deep_subtype<T>>(src)));
 }
 
 template <bool A = false, size_t N, typename T>
 KFR_INTRINSIC void write(T* dest, const vec<T, N>& value)
 {
-    intrinsics::write(cbool<A>, ptr_cast<deep_subtype<T>>(dest), value.flatten());
+    if constexpr (internal::is_padded_element<T>)
+    {
+        for (size_t i = 0; i < N; ++i)
+            dest[i] = value[i];
+    }
+    else
+        intrinsics::write(cbool<A>, ptr_cast<deep_subtype<T>>(dest), value.flatten());
 }
 
 namespace internal
@@ -305,9 +328,7 @@ KFR_INTRINSIC vec<T, N> partial_mask(size_t index, vec_shape<T, N>)
 template <typename T, size_t N>
 template <bool aligned>
 KFR_MEM_INTRINSIC constexpr vec<T, N>::vec(const value_type* src, cbool_t<aligned>) CMT_NOEXCEPT
-    : vec(vec<T, N>::from_flatten(intrinsics::read(cbool<aligned>,
-                                                   csize<N * compound_type_traits<T>::deep_width>,
-                                                   ptr_cast<deep_subtype<T>>(src))))
+    : vec(kfr::read<N, aligned>(src))
 {
 }
 
@@ -315,7 +336,7 @@ template <typename T, size_t N>
 template <bool aligned>
 KFR_MEM_INTRINSIC const vec<T, N>& vec<T, N>::write(value_type* dest, cbool_t<aligned>) const CMT_NOEXCEPT
 {
-    intrinsics::write(cbool<aligned>, ptr_cast<deep_subtype<T>>(dest), flatten());
+    kfr::write<aligned>(dest, *this);
     return *this;
 }
 
-- 
2.43.0


From 456a233c8c8266a8e56585edeb8194dd0708bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 054/124] fix: a tensor assigned to itself released its storage

---
 include/kfr/base/tensor.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index a0fdacc..85c43d8 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -361,14 +361,20 @@ public:
 #if defined(CMT_COMPILER_IS_MSVC) || true
     tensor& operator=(const tensor& src) &
     {
-        this->~tensor();
-        new (this) tensor(src);
+        if (this != &src)
+        {
+            this->~tensor();
+            new (this) tensor(src);
+        }
         return *this;
     }
     tensor& operator=(tensor&& src) &
     {
-        this->~tensor();
-        new (this) tensor(std::move(src));
+        if (this != &src)
+        {
+            this->~tensor();
+            new (this) tensor(std::move(src));
+        }
         return *this;
     }
 #else
-- 
2.43.0


From 61c90141980fefa6a5b308b0d77ab4d1c8b5e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 055/124] fix: tensor ranges with a negative step and a start
 or stop of -1

---
 include/kfr/base/tensor.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 85c43d8..6ee77ed 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -437,8 +437,11 @@ public:
         }
         else
         {
-            tstart = iidx.start ? *iidx.start + 1 : tsize;
-            tstop  = iidx.stop ? *iidx.stop + 1 : 0;
+            // positions after the elements; negative values count from the end
+            const auto after = [tsize](signed_index_t i) CMT_INLINE_LAMBDA
+            { return std::max(std::min(i < 0 ? tsize + i : i, tsize - 1), signed_index_t(-1)) + 1; };
+            tstart           = iidx.start ? after(*iidx.start) : tsize;
+            tstop            = iidx.stop ? after(*iidx.stop) : 0;
         }
         tstart = tstart < 0 ? tsize + tstart : tstart;
         tstart = std::max(std::min(tstart, tsize), signed_index_t(0));
@@ -456,13 +459,13 @@ public:
             {
                 tstop = std::max(tstop, tstart);
                 start = tstart;
-                shape = (tstop - tstart + tstep - 1) / tstep;
+                shape = tstop > tstart ? (tstop - tstart - 1) / tstep + 1 : 0;
                 step  = tstep;
             }
             else
             {
                 tstart = std::max(tstart, tstop);
-                shape  = (tstart - tstop + -tstep - 1) / -tstep;
+                shape  = tstart > tstop ? (tstop - tstart + 1) / tstep + 1 : 0;
                 start  = tstart - 1;
                 step   = tstep;
             }
-- 
2.43.0


From 1db79b0dabbd52e5e3a9802edcc5b81492d2f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 056/124] fix: assigning one tensor lvalue to another copied
 elements instead of sharing the data

---
 include/kfr/base/tensor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 6ee77ed..ac94d2e 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -381,6 +381,8 @@ public:
     tensor& operator=(const tensor& src) & = default;
     tensor& operator=(tensor&& src) &      = default;
 #endif
+    tensor& operator=(tensor& src) & { return operator=(static_cast<const tensor&>(src)); }
+    tensor& operator=(const tensor&& src) & { return operator=(static_cast<const tensor&>(src)); }
 
     KFR_MEM_INTRINSIC const tensor& operator=(const tensor& src) const&
     {
-- 
2.43.0


From a975755a0d590e94c5c45cd1aa5c68618bc0b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 057/124] fix: negative strides made pointer arithmetic
 overflow

---
 include/kfr/simd/read_write.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index 2f406f9..6e60555 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -131,7 +131,7 @@ KFR_INTRINSIC vec<T, Nout> gather_stride(const T* base, csizes_t<Indices...>)
 template <size_t Nout, size_t groupsize, typename T, size_t... Indices>
 KFR_INTRINSIC vec<T, Nout * groupsize> gather_stride_s(const T* base, size_t stride, csizes_t<Indices...>)
 {
-    return concat(read<groupsize>(base + Indices * groupsize * stride)...);
+    return concat(read<groupsize>(base + static_cast<ptrdiff_t>(Indices * groupsize * stride))...);
 }
 } // namespace internal
 
@@ -148,7 +148,7 @@ KFR_INTRINSIC vec<T, Nout * groupsize> gather_stride(const T* base, size_t strid
     {
         constexpr size_t Nlow = prev_poweroftwo(Nout - 1);
         return concat(internal::gather_stride_s<Nlow, groupsize>(base, stride, csizeseq<Nlow>),
-                      internal::gather_stride_s<Nout - Nlow, groupsize>(base + Nlow * groupsize * stride, stride,
+                      internal::gather_stride_s<Nout - Nlow, groupsize>(base + static_cast<ptrdiff_t>(Nlow * groupsize * stride), stride,
                                                                         csizeseq<Nout - Nlow>));
     }
     else
@@ -188,7 +188,7 @@ KFR_INTRINSIC void scatter_helper(T* base, const vec<IT, N>& offset, const vec<T
 template <size_t groupsize, typename T, size_t N, size_t... Indices>
 KFR_INTRINSIC void scatter_helper_s(T* base, size_t stride, const vec<T, N>& value, csizes_t<Indices...>)
 {
-    swallow{ (write(base + groupsize * Indices * stride, slice<Indices * groupsize, groupsize>(value)),
+    swallow{ (write(base + static_cast<ptrdiff_t>(groupsize * Indices * stride), slice<Indices * groupsize, groupsize>(value)),
               0)... };
 }
 } // namespace internal
@@ -208,7 +208,7 @@ KFR_INTRINSIC void scatter_stride(T* base, const vec<T, N>& value, size_t stride
         constexpr size_t Nlow = prev_poweroftwo(Nout - 1);
         internal::scatter_helper_s<groupsize>(base, stride, slice<0, Nlow * groupsize>(value),
                                               csizeseq<Nlow>);
-        internal::scatter_helper_s<groupsize>(base + Nlow * groupsize * stride, stride,
+        internal::scatter_helper_s<groupsize>(base + static_cast<ptrdiff_t>(Nlow * groupsize * stride), stride,
                                               slice<Nlow * groupsize, (Nout - Nlow) * groupsize>(value),
                                               csizeseq<(Nout - Nlow)>);
     }
-- 
2.43.0


From b84bccbbbbc0cc9fe7db23da3a1443661ca74a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 058/124] fix: incompatible shapes of the second and later
 operands were not reported

---
 include/kfr/base/shape.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/shape.hpp b/include/kfr/base/shape.hpp
index c3b05f3..ac87faa 100644
--- a/include/kfr/base/shape.hpp
+++ b/include/kfr/base/shape.hpp
@@ -708,7 +708,7 @@ KFR_MEM_INTRINSIC constexpr shape<outdims> common_shape(const shape<dims1>& shap
                                                         const shape<dims2>& shape2,
                                                         const shape<dims>&... shapes)
 {
-    return common_shape<checked>(shape1, common_shape(shape2, shapes...));
+    return common_shape<checked>(shape1, common_shape<checked>(shape2, shapes...));
 }
 
 template <index_t dims1, index_t dims2>
-- 
2.43.0


From b09d69e3e428889eae1e36f955d748db3bfef58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 059/124] fix: an empty range in five or more dimensions had no
 end_pass

---
 include/kfr/base/expression.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 1402d87..b271bfd 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -824,15 +824,16 @@ static auto process(Out&& out, In&& in, shape<outdims> start = shape<outdims>(0)
     else
     {
         shape<outdims> outidx = start;
-        if (CMT_UNLIKELY(!internal_generic::compare_indices(outidx, stop)))
-            return stop;
-        do
+        if (CMT_LIKELY(internal_generic::compare_indices(outidx, stop)))
         {
-            tprocess_body<Out, In, out_axis, w, gw, Tin, outdims, indims>(
-                std::forward<Out>(out), std::forward<In>(in), start[out_axis], stop[out_axis], in_size,
-                outidx, inshape.adapt(outidx));
-            outidx[out_axis] = stop[out_axis] - 1;
-        } while (internal_generic::increment_indices(outidx, start, stop));
+            do
+            {
+                tprocess_body<Out, In, out_axis, w, gw, Tin, outdims, indims>(
+                    std::forward<Out>(out), std::forward<In>(in), start[out_axis], stop[out_axis], in_size,
+                    outidx, inshape.adapt(outidx));
+                outidx[out_axis] = stop[out_axis] - 1;
+            } while (internal_generic::increment_indices(outidx, start, stop));
+        }
     }
     end_pass(in, inshape.adapt(start), inshape.adapt(stop, ctrue));
     end_pass(out, start, stop);
-- 
2.43.0


From 9fb2a4089756969cfcdd053eca5aab1b158f2bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 060/124] fix: sample conversion truncated instead of rounding,
 and full scale wrapped in i64

---
 include/kfr/base/conversion.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/conversion.hpp b/include/kfr/base/conversion.hpp
index 32f1b80..f496000 100644
--- a/include/kfr/base/conversion.hpp
+++ b/include/kfr/base/conversion.hpp
@@ -29,6 +29,8 @@
 #include "../simd/types.hpp"
 #include "../simd/vec.hpp"
 #include "univector.hpp"
+#include <cmath>
+#include <limits>
 
 namespace kfr
 {
@@ -183,7 +185,23 @@ template <typename Tout, typename Tin, typename Tout_traits = audio_sample_trait
 inline Tout convert_sample(const Tin& in)
 {
     constexpr auto scale = Tout_traits::scale / Tin_traits::scale;
-    return broadcastto<Tout>(clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale));
+    const auto value     = clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale);
+    if constexpr (std::is_floating_point_v<Tout>)
+    {
+        return broadcastto<Tout>(value);
+    }
+    else if constexpr (std::is_same_v<Tout, i64>)
+    {
+        // full scale is not representable: it is rounded to 2^63
+        return value >= Tout_traits::scale ? std::numeric_limits<i64>::max()
+                                           : broadcastto<Tout>(std::round(value));
+    }
+    else
+    {
+        // to the nearest
+        using Tvalue = std::decay_t<decltype(value)>;
+        return broadcastto<Tout>(value + (value < 0 ? Tvalue(-0.5) : Tvalue(0.5)));
+    }
 }
 
 /// @brief Deinterleaves and converts audio samples
-- 
2.43.0


From 1476b2d5208417156e75a42724fe52a246c28d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 061/124] fix: transposing a matrix without elements divided by
 zero

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index edace25..9f86c3c 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -600,7 +600,7 @@ void matrix_transpose(vec<T, N>* out, const vec<T, N>* in, shape<Dims> tshape)
     {
         const index_t rows = tshape[0];
         const index_t cols = tshape[1];
-        if (cols == 1 || rows == 1)
+        if (cols <= 1 || rows <= 1)
         {
             return internal::matrix_transpose_noop(out, in, tshape.product());
         }
-- 
2.43.0


From 94f3e6d001221c3a821e47ac34dce229d4d9f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 062/124] fix: matrix_cycles released an array with delete

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index 9f86c3c..4a68168 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -329,7 +329,7 @@ public:
     ~matrix_cycles()
     {
         if (data != on_stack)
-            delete data;
+            delete[] data;
     }
 
     size_t next_cycle_origin(size_t origin = 0)
-- 
2.43.0


From 904232e237050210ef4cef241d7c52524a061e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 063/124] fix: transposing a matrix of elements with padding
 (vec<T, 3>) mixed the elements

---
 include/kfr/base/transpose.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index 4a68168..f012475 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -645,7 +645,8 @@ template <typename T, index_t Dims>
 void matrix_transpose(T* out, const T* in, shape<Dims> shape)
 {
     using U                = typename compound_type_traits<T>::deep_subtype;
-    constexpr size_t width = compound_type_traits<T>::deep_width;
+    // Number of subelements in T including the padding of vec<U, 3> and the like
+    constexpr size_t width = sizeof(T) / sizeof(U);
     return internal::matrix_transpose<U, width, Dims>(ptr_cast<vec<U, width>>(out),
                                                       ptr_cast<vec<U, width>>(in), shape);
 }
-- 
2.43.0


From e1c79143fb106de510e0a11ebf09fbe727e0fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 064/124] fix: cubic and Catmull-Rom interpolation used their
 coefficients in reverse order

---
 include/kfr/math/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/interpolation.hpp b/include/kfr/math/interpolation.hpp
index 180a4a3..4f80dd6 100644
--- a/include/kfr/math/interpolation.hpp
+++ b/include/kfr/math/interpolation.hpp
@@ -78,7 +78,7 @@ KFR_FUNCTION T cubic(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - x1 - a0;
     const T a2 = x2 - x0;
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 /**
@@ -93,7 +93,7 @@ KFR_FUNCTION T catmullrom(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - T(2.5) * x1 + T(2) * x2 - T(0.5) * x3;
     const T a2 = T(0.5) * (x2 - x0);
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From 5ab6fcb1d9719802a7ba9c0fe9febf19b80ac140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 065/124] fix: saturate_I of an expression was declared to
 return saturate_II

---
 include/kfr/dsp/waveshaper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/dsp/waveshaper.hpp b/include/kfr/dsp/waveshaper.hpp
index ed8053d..719d70f 100644
--- a/include/kfr/dsp/waveshaper.hpp
+++ b/include/kfr/dsp/waveshaper.hpp
@@ -64,7 +64,7 @@ KFR_FUNCTION flt_type<T1> saturate_II(const T1& x)
 KFR_FN(saturate_II)
 
 template <typename E1, KFR_ACCEPT_EXPRESSIONS(E1)>
-KFR_FUNCTION expression_function<fn::saturate_II, E1> saturate_I(E1&& x)
+KFR_FUNCTION expression_function<fn::saturate_I, E1> saturate_I(E1&& x)
 {
     return { fn::saturate_I(), std::forward<E1>(x) };
 }
-- 
2.43.0


From 5032cf8e16185c0f29f4f854029bea855a51b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 066/124] fix: waveshapers of a temporary expression kept a
 dangling reference to it

---
 include/kfr/dsp/waveshaper.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/dsp/waveshaper.hpp b/include/kfr/dsp/waveshaper.hpp
index 719d70f..d1927cc 100644
--- a/include/kfr/dsp/waveshaper.hpp
+++ b/include/kfr/dsp/waveshaper.hpp
@@ -38,13 +38,13 @@ inline namespace CMT_ARCH_NAME
 template <typename E1>
 inline auto waveshaper_hardclip(E1&& input, double clip_level)
 {
-    return clamp(input, -clip_level, +clip_level);
+    return clamp(std::forward<E1>(input), -clip_level, +clip_level);
 }
 
 template <typename E1>
 inline auto waveshaper_tanh(E1&& input, double saturation)
 {
-    return tanh(saturation * input) * (coth(saturation));
+    return tanh(saturation * std::forward<E1>(input)) * (coth(saturation));
 }
 
 template <typename T1, KFR_ENABLE_IF(is_numeric<T1>)>
@@ -78,19 +78,19 @@ KFR_FUNCTION expression_function<fn::saturate_II, E1> saturate_II(E1&& x)
 template <typename E1>
 inline auto waveshaper_saturate_I(E1&& input, double saturation)
 {
-    return saturate_I(saturation * input) / (saturate_I(saturation));
+    return saturate_I(saturation * std::forward<E1>(input)) / (saturate_I(saturation));
 }
 
 template <typename E1>
 inline auto waveshaper_saturate_II(E1&& input, double saturation)
 {
-    return saturate_II(saturation * input) / (saturate_II(saturation));
+    return saturate_II(saturation * std::forward<E1>(input)) / (saturate_II(saturation));
 }
 
 template <typename E1, typename... Cs>
 inline auto waveshaper_poly(E1&& input, fbase c1, fbase c3, Cs... cs)
 {
-    return horner_odd(input, c1, c3, static_cast<fbase>(cs)...);
+    return horner_odd(std::forward<E1>(input), c1, c3, static_cast<fbase>(cs)...);
 }
 } // namespace CMT_ARCH_NAME
 } // namespace kfr
-- 
2.43.0


From dc7732fc2c373f439f861edf864f6773a242789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 067/124] fix: dB_to_power of vectors and expressions

---
 include/kfr/dsp/units.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dsp/units.hpp b/include/kfr/dsp/units.hpp
index 83c397c..805115f 100644
--- a/include/kfr/dsp/units.hpp
+++ b/include/kfr/dsp/units.hpp
@@ -86,10 +86,8 @@ KFR_INTRINSIC Tout power_to_dB(const T& x)
 template <typename T, typename Tout = flt_type<T>>
 KFR_INTRINSIC Tout dB_to_power(const T& x)
 {
-    if (CMT_UNLIKELY(x == -c_infinity<Tout>))
-        return 0.0;
-    else
-        return exp(x * (c_log_10<Tout> / 10.0));
+    const Tout xx = static_cast<Tout>(x);
+    return select(xx == Tout(-c_infinity<Tout>), Tout(0), exp(xx * (c_log_10<Tout> / 10)));
 }
 
 template <typename T, typename TF = flt_type<T>>
-- 
2.43.0


From 83a6004d3b611dd0e763970873ffc3c062f3e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 068/124] fix: gen_cossin read by an odd number of elements
 lost its phase

---
 include/kfr/base/generators.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/generators.hpp b/include/kfr/base/generators.hpp
index bc68e0b..f30e696 100644
--- a/include/kfr/base/generators.hpp
+++ b/include/kfr/base/generators.hpp
@@ -196,7 +196,7 @@ protected:
 };
 
 template <typename T, size_t VecWidth = internal::generator_width<T>(1)>
-struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecWidth>>
+struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecWidth>, vec<T, 2>>
 {
     static_assert(VecWidth % 2 == 0);
     generator_cossin(T start, T step)
@@ -204,12 +204,24 @@ struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecW
     {
         this->resync(start);
     }
-    KFR_MEM_INTRINSIC void sync(T start) const CMT_NOEXCEPT { this->value = init_cossin(step, start); }
+    // Every element is kept together with the one which is a quarter of a turn behind, so that any number of
+    // elements may be read: cos is followed by sin and sin by -cos
+    KFR_MEM_INTRINSIC void sync(T start) const CMT_NOEXCEPT
+    {
+        const vec<T, VecWidth> cs = init_cossin(step, start);
+        const vec<T, VecWidth> sc = swap<2>(cs);
+        this->value = vec<vec<T, 2>, VecWidth>::from_flatten(interleave(cs, negodd(sc)));
+    }
 
     KFR_MEM_INTRINSIC void next() const CMT_NOEXCEPT
     {
-        this->value = this->value - subadd(alpha * this->value, beta * swap<2>(this->value));
+        vec<T, 2 * VecWidth> cs = flatten(this->value);
+
+        cs = cs - subadd(alpha * cs, beta * swap<2>(cs));
+
+        this->value = vec<vec<T, 2>, VecWidth>::from_flatten(cs);
     }
+    KFR_MEM_INTRINSIC vec<T, VecWidth> get_value() const { return even(flatten(this->value)); }
 
 protected:
     T step;
-- 
2.43.0


From 944f98c899c1e54376f5cdf3c90b869eef922b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 069/124] fix: double precision multidimensional real DFT plans
 of the C API were declared but not defined

---
 src/capi/capi.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/capi/capi.cpp b/src/capi/capi.cpp
index 14f287c..b0df467 100644
--- a/src/capi/capi.cpp
+++ b/src/capi/capi.cpp
@@ -411,6 +411,41 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_plan_f64(size_t size, KF
         nullptr);
 }
 
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_2d_plan_f64(size_t size1, size_t size2,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 2>(shape{ size1, size2 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_3d_plan_f64(size_t size1, size_t size2, size_t size3,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 3>(shape{ size1, size2, size3 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_md_plan_f64(size_t dims, const unsigned* shape,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, dynamic_shape>(init_shape(dims, shape),
+                                                                  real_out_is_enough));
+        },
+        nullptr);
+}
+
 KFR_API_SPEC void kfr_dft_real_dump_f32(KFR_DFT_REAL_PLAN_F32* plan)
 {
     try_fn([&]() { reinterpret_cast<var_dft_plan<float>*>(plan)->dump(); });
-- 
2.43.0


From d38d65cd298414f7f3c7d7f74fa7ace8a4bb010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 070/124] fix: sizes near the maximum wrapped in aligned_malloc
 and gave a tiny block

---
 include/kfr/cometa/memory.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 26f7d15..680e94e 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <atomic>
 #include <cstdint>
+#include <limits>
 #include <memory>
 
 namespace cometa
@@ -61,11 +62,14 @@ inline void* aligned_malloc(size_t size, size_t alignment)
 {
     if (alignment == 0 || alignment > 32768)
         return nullptr;
-    get_memory_statistics().allocation_count++;
-    get_memory_statistics().allocation_size += size;
-    void* ptr = malloc(size + (alignment - 1) + sizeof(mem_header));
+    const size_t extra = (alignment - 1) + sizeof(mem_header);
+    if (size > std::numeric_limits<size_t>::max() - extra)
+        return nullptr;
+    void* ptr = malloc(size + extra);
     if (ptr == nullptr)
         return nullptr;
+    get_memory_statistics().allocation_count++;
+    get_memory_statistics().allocation_size += size;
     void* aligned_ptr                         = advance(ptr, sizeof(mem_header));
     aligned_ptr                               = align_up(aligned_ptr, alignment);
     aligned_header(aligned_ptr)->alignment    = static_cast<u16>(alignment);
-- 
2.43.0


From 300c9b7970862335437989ca733133d7de83a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 071/124] fix: a failed reallocation wrote through a null
 pointer

---
 include/kfr/cometa/memory.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 680e94e..734bf2d 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -102,7 +102,9 @@ inline void* aligned_reallocate(void* ptr, size_t new_size, size_t alignment)
     {
         if (new_size)
         {
-            void* new_ptr   = aligned_malloc(new_size, alignment);
+            void* new_ptr = aligned_malloc(new_size, alignment);
+            if (new_ptr == nullptr)
+                return nullptr;
             size_t old_size = aligned_size(ptr);
             memcpy(new_ptr, ptr, std::min(old_size, new_size));
             aligned_release(ptr);
-- 
2.43.0


From 356d2f5d9b54efff748e3e305e3d0d1082647fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 072/124] fix: execution without scratch memory did arithmetic
 on a null pointer

---
 src/dft/fft-impl.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dft/fft-impl.hpp b/src/dft/fft-impl.hpp
index d176b28..f1a7bb8 100644
--- a/src/dft/fft-impl.hpp
+++ b/src/dft/fft-impl.hpp
@@ -1984,9 +1984,11 @@ void dft_execute(const dft_plan<T>& plan, cbool_t<inverse>, complex<T>* out, con
     typename dft_plan<T>::bitset disposition =
         in == out ? plan.disposition_inplace[inverse] : plan.disposition_outofplace[inverse];
 
-    complex<T>* scratch = ptr_cast<complex<T>>(
-        temp + plan.temp_size -
-        align_up(sizeof(complex<T>) * (plan.size + 1), platform<>::native_cache_alignment));
+    const size_t scratch_size =
+        align_up(sizeof(complex<T>) * (plan.size + 1), platform<>::native_cache_alignment);
+    complex<T>* scratch = plan.temp_size >= scratch_size
+                              ? ptr_cast<complex<T>>(temp + plan.temp_size - scratch_size)
+                              : nullptr; // not used by this plan
 
     bool in_scratch = disposition.test(0);
     if (in_scratch)
-- 
2.43.0


From 81ff5b74174caae6269f1817840136db6bbe5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 073/124] fix: the size of an array in bytes could wrap in
 aligned_allocate

---
 include/kfr/cometa/memory.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 734bf2d..2f446f7 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -132,12 +132,23 @@ inline void* aligned_reallocate(void* ptr, size_t new_size, size_t alignment)
 
 constexpr inline size_t default_memory_alignment = 64;
 
+namespace details
+{
+// size of n elements in bytes or the maximum, which can not be allocated, if it is not representable
+template <typename T>
+constexpr size_t array_bytes(size_t n)
+{
+    return n > std::numeric_limits<size_t>::max() / elementsize<T>() ? std::numeric_limits<size_t>::max()
+                                                                    : n * elementsize<T>();
+}
+} // namespace details
+
 /// @brief Allocates aligned memory
 template <typename T = void, size_t alignment = default_memory_alignment>
 CMT_INTRINSIC T* aligned_allocate(size_t size = 1)
 {
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
-        details::aligned_malloc(std::max(alignment, size * details::elementsize<T>()), alignment),
+        details::aligned_malloc(std::max(alignment, details::array_bytes<T>(size)), alignment),
         alignment));
     return ptr;
 }
@@ -146,7 +157,7 @@ template <typename T = void>
 CMT_INTRINSIC T* aligned_allocate(size_t size, size_t alignment)
 {
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
-        details::aligned_malloc(std::max(alignment, size * details::elementsize<T>()), alignment),
+        details::aligned_malloc(std::max(alignment, details::array_bytes<T>(size)), alignment),
         alignment));
     return ptr;
 }
-- 
2.43.0


From 1cca376580f91bb40dc0d4b24690a597b3273b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 074/124] fix: arrays of types aligned to more than 64 bytes
 were not aligned

---
 include/kfr/base/tensor.hpp   |  2 +-
 include/kfr/cometa/memory.hpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index ac94d2e..395fd02 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -184,7 +184,7 @@ public:
     {
     }
 
-    KFR_INTRINSIC static T* allocate(size_t size) { return aligned_allocate<T>(size, 64); }
+    KFR_INTRINSIC static T* allocate(size_t size) { return aligned_allocate<T>(size); }
 
     KFR_INTRINSIC static void deallocate(T* ptr) { aligned_deallocate(ptr); }
 
diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 2f446f7..3828386 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -141,10 +141,20 @@ constexpr size_t array_bytes(size_t n)
     return n > std::numeric_limits<size_t>::max() / elementsize<T>() ? std::numeric_limits<size_t>::max()
                                                                     : n * elementsize<T>();
 }
+
+// alignment for elements of the type, never less than the default
+template <typename T>
+constexpr size_t array_alignment()
+{
+    if constexpr (std::is_void_v<T>)
+        return default_memory_alignment;
+    else
+        return std::max(default_memory_alignment, alignof(T));
+}
 } // namespace details
 
 /// @brief Allocates aligned memory
-template <typename T = void, size_t alignment = default_memory_alignment>
+template <typename T = void, size_t alignment = details::array_alignment<T>()>
 CMT_INTRINSIC T* aligned_allocate(size_t size = 1)
 {
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
-- 
2.43.0


From 3330a9556b4f08fde768bd0e92d789801478ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 075/124] fix: transfers longer than a ring buffer were
 misplaced or incomplete

---
 include/kfr/base/univector.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index 945412d..a3f9a3d 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -169,8 +169,10 @@ struct univector_base<T, Class, true>
         T* data           = get_data();
         if (srcsize > size)
         {
-            src     = src + srcsize / size;
-            srcsize = srcsize % size;
+            const size_t skip = srcsize - size;
+            ringbuf_step(cursor, skip);
+            src     = src + skip;
+            srcsize = size;
         }
         const size_t fsize = size - cursor;
         // one fragment
@@ -200,7 +202,7 @@ struct univector_base<T, Class, true>
     {
         const size_t size = get_size();
         cursor            = cursor + step;
-        cursor            = cursor >= size ? cursor - size : cursor;
+        cursor            = cursor >= size ? cursor % size : cursor;
     }
     void ringbuf_read(size_t& cursor, T& value)
     {
@@ -217,13 +219,15 @@ struct univector_base<T, Class, true>
     {
         if (CMT_UNLIKELY(destsize == 0))
             return;
-        // skip redundant data
         const size_t size = get_size();
         const T* data     = get_data();
-        if (destsize > size)
+        // the whole ring, as many times as it fits
+        while (destsize > size)
         {
-            dest     = dest + destsize / size;
-            destsize = destsize % size;
+            copy(dest, data + cursor, size - cursor);
+            copy(dest + (size - cursor), data, cursor);
+            dest += size;
+            destsize -= size;
         }
         const size_t fsize = size - cursor;
         // one fragment
-- 
2.43.0


From 128a110aac145f0747d131682741df5df8332aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 076/124] fix: transferring nothing through a lock-free ring
 buffer of no elements divided by zero

---
 include/kfr/base/univector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index a3f9a3d..aaa4f45 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -596,6 +596,8 @@ struct lockfree_ring_buffer
                 return 0;
             size = std::min(size, avail_size);
         }
+        if (size == 0)
+            return 0;
         std::atomic_thread_fence(std::memory_order_acquire);
 
         const size_t real_tail  = cur_tail % buffer.size();
@@ -620,6 +622,8 @@ struct lockfree_ring_buffer
                 return 0;
             size = std::min(size, avail_size);
         }
+        if (size == 0)
+            return 0;
         std::atomic_thread_fence(std::memory_order_acquire);
 
         const size_t real_front = cur_front % buffer.size();
-- 
2.43.0


From 3fd360529e8934edbe67bdcf06672bc95406e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 077/124] fix: vectors moved through a ring buffer were
 accessed as other types

---
 include/kfr/base/univector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index aaa4f45..f5497a6 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -190,7 +190,9 @@ struct univector_base<T, Class, true>
     template <size_t N>
     void ringbuf_write(size_t& cursor, const vec<T, N>& x)
     {
-        ringbuf_write(cursor, ptr_cast<T>(&x), N);
+        T values[N];
+        builtin_memcpy(values, &x, sizeof(values));
+        ringbuf_write(cursor, values, N);
     }
     void ringbuf_write(size_t& cursor, const T& value)
     {
@@ -213,7 +215,9 @@ struct univector_base<T, Class, true>
     template <size_t N>
     void ringbuf_read(size_t& cursor, vec<T, N>& x)
     {
-        ringbuf_read(cursor, ptr_cast<T>(&x), N);
+        T values[N];
+        ringbuf_read(cursor, values, N);
+        builtin_memcpy(static_cast<void*>(&x), values, sizeof(values));
     }
     void ringbuf_read(size_t& cursor, T* dest, size_t destsize) const
     {
-- 
2.43.0


From 648d59d26aaa2d45bd70bf31a5a0b3ed6ebb775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 078/124] fix: gen_random_uniform did not compile or yielded
 zeros only

---
 include/kfr/base/random.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 72295a8..00d708c 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -154,7 +154,7 @@ struct expression_random_uniform : expression_traits_defaults
     friend KFR_INTRINSIC vec<T, N> get_elements(const expression_random_uniform& self, shape<Dims>,
                                                 axis_params<VecAxis, N>)
     {
-        return random_uniform<N, T>(*self.state);
+        return random_uniform<T, N>(*self.state);
     }
 };
 
@@ -218,7 +218,7 @@ KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform(const random_
  * Use std::ref(gen) to use this overload.
  */
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
+KFR_FUNCTION expression_random_uniform<T, Dims, true> gen_random_uniform(
     std::reference_wrapper<random_state> state)
 {
     return { {}, state };
@@ -227,9 +227,9 @@ KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
 #ifndef KFR_DISABLE_READCYCLECOUNTER
 /// @brief Returns expression that produces uniform pseudorandom values using cycle counter entropy.
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims> gen_random_uniform()
+KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform()
 {
-    return expression_random_uniform<T, Dims>{ random_init() };
+    return { {}, random_init() };
 }
 #endif
 
-- 
2.43.0


From e29cd53ecab299e8fdf6da882bbb168a555662c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 079/124] fix: random_range of integers did not compile or left
 the range

---
 include/kfr/base/random.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 00d708c..baab9ca 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -104,11 +104,27 @@ KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 template <size_t N, typename T, KFR_ENABLE_IF(!is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    using big_type = findinttype<sqr(std::numeric_limits<T>::min()), sqr(std::numeric_limits<T>::max())>;
+    using utype = std::make_unsigned_t<T>;
 
-    vec<T, N> u                = random_uniform<T, N>(state);
-    const vec<big_type, N> tmp = u;
-    return (tmp * (max - min) + min) >> typebits<T>::bits;
+    const utype range      = static_cast<utype>(static_cast<utype>(max) - static_cast<utype>(min));
+    const vec<utype, N> u  = random_uniform<utype, N>(state);
+    if constexpr (sizeof(T) <= 4)
+    {
+        const vec<u64, N> scaled = (broadcastto<u64>(u) * u64(range)) >> typebits<T>::bits;
+        return bitcast<T>(broadcastto<utype>(scaled) + static_cast<utype>(min));
+    }
+    else
+    {
+        // high half of the 128-bit product
+        const u64 rl            = range & 0xFFFFFFFFu;
+        const u64 rh            = range >> 32;
+        const vec<u64, N> ul    = u & u64(0xFFFFFFFFu);
+        const vec<u64, N> uh    = u >> 32;
+        const vec<u64, N> mid   = uh * rl + ((ul * rl) >> 32);
+        const vec<u64, N> mid2  = ul * rh + (mid & u64(0xFFFFFFFFu));
+        const vec<u64, N> scaled = uh * rh + (mid >> 32) + (mid2 >> 32);
+        return bitcast<T>(scaled + static_cast<u64>(min));
+    }
 }
 
 /**
-- 
2.43.0


From 57dfc0da040e004f26d31368453a703fbde1b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 080/124] fix: rounding let random_range return the excluded
 end of the range

---
 include/kfr/base/random.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index baab9ca..dba6caf 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -86,7 +86,9 @@ KFR_INTRINSIC vec<T, N> random_uniform(random_state& state)
 template <size_t N, typename T, KFR_ENABLE_IF(is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    return mix(random_uniform<T, N>(state), min, max);
+    const vec<T, N> r = mix(random_uniform<T, N>(state), min, max);
+    // rounding may give max, which is not in the range; the interval that rounds to min is short by the same amount
+    return select(r == max, vec<T, N>(min), r);
 }
 
 /**
-- 
2.43.0


From 0817e922d3892065a8bcf7a4dc8f26557f8bafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 081/124] fix: random_normal gave infinities when a uniform
 value was zero

---
 include/kfr/base/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index dba6caf..ed292a4 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -150,7 +150,7 @@ KFR_INTRINSIC vec<T, N> random_normal(random_state& state, T mu, T sigma)
 
     vec<T, M> u = random_uniform<T, M>(state);
 
-    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(even(u)));
+    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(T(1.0) - even(u))); // logarithm of (0, 1]
     vec<T, M> z       = dup(mag) * cossin(c_pi<T, 2> * dupodd(u)) + mu;
     return slice<0, N>(z);
 }
-- 
2.43.0


From 7260d33fbc112efaceb33bef0865b9f910b19692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 082/124] fix: csqrt of zero was not a number

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index d03acb4..5ca26b8 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -136,7 +136,7 @@ template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> csqrt(const vec<complex<T>, N>& x)
 {
     const vec<T, N> s        = sqrt((abs(real(x)) + cabs(x)) * 0.5);
-    const vec<T, N> d        = abs(imag(x)) * 0.5 / s;
+    const vec<T, N> d        = select(s > T(0), abs(imag(x)) * 0.5 / s, T(0)); // square root of zero is zero
     const mask<T, N> posreal = real(x) >= T(0);
     const vec<T, N> imagsign = imag(x) & special_constants<T>::highbitmask();
     return make_complex(select(posreal, s, d), select(posreal, d ^ imagsign, s ^ imagsign));
-- 
2.43.0


From 9a06f268c4fcb73c7bc9456725d72d5fdc799d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:00 +0000
Subject: [PATCH 083/124] fix: cartesian multiplied the two polar coordinates
 as complex numbers

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index 5ca26b8..9e4823b 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -122,7 +122,7 @@ KFR_INTRINSIC vec<complex<T>, N> polar(const vec<complex<T>, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> cartesian(const vec<complex<T>, N>& x)
 {
-    return cdupreal(x) * ccomp(cossin(cdecom(cdupimag(x))));
+    return ccomp(cdecom(cdupreal(x)) * cossin(cdecom(cdupimag(x))));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 9afed0a6d61817f7dc07f87777d89084346a7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:01 +0000
Subject: [PATCH 084/124] fix: halves of vectors were accessed as vectors of
 other types

---
 include/kfr/simd/impl/simd.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kfr/simd/impl/simd.hpp b/include/kfr/simd/impl/simd.hpp
index f4b6a03..83b3be5 100644
--- a/include/kfr/simd/impl/simd.hpp
+++ b/include/kfr/simd/impl/simd.hpp
@@ -83,7 +83,11 @@ struct simd_type<T, 0>
 };
 
 template <typename T, size_t N>
-struct simd_halves
+struct
+#ifdef CMT_GNU_ATTRIBUTES
+    __attribute__((__may_alias__)) // the halves are also accessed as vectors of other sizes
+#endif
+    simd_halves
 {
     using subtype = typename simd_type<T, prev_poweroftwo(N - 1)>::type;
 
-- 
2.43.0


From b346395b72080584a85133431f339cb2ace25445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:01 +0000
Subject: [PATCH 085/124] fix: joining vectors of a width not a power of two
 garbled the lanes

---
 include/kfr/simd/impl/backend_generic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/backend_generic.hpp b/include/kfr/simd/impl/backend_generic.hpp
index f9c524a..f1d987c 100644
--- a/include/kfr/simd/impl/backend_generic.hpp
+++ b/include/kfr/simd/impl/backend_generic.hpp
@@ -397,7 +397,7 @@ KFR_INTRINSIC simd<double, Nout> simd_shuffle(simd_t<double, N>, const simd<doub
     return universal_shuffle(simd_t<double, N>{}, x, ind);
 }
 
-template <size_t N, size_t... indices, size_t Nout = sizeof...(indices)>
+template <size_t N, size_t... indices, size_t Nout = sizeof...(indices), KFR_ENABLE_IF(is_poweroftwo(N))>
 KFR_INTRINSIC simd<float, Nout> simd_shuffle(simd2_t<float, N, N>, const simd<float, N>& x,
                                              const simd<float, N>& y, csizes_t<indices...> ind,
                                              overload_priority<2>) CMT_NOEXCEPT
@@ -405,7 +405,7 @@ KFR_INTRINSIC simd<float, Nout> simd_shuffle(simd2_t<float, N, N>, const simd<fl
     return universal_shuffle(simd_t<float, 2 * N>{}, simd_from_halves(simd_t<float, 2 * N>{}, x, y), ind);
 }
 
-template <size_t N, size_t... indices, size_t Nout = sizeof...(indices)>
+template <size_t N, size_t... indices, size_t Nout = sizeof...(indices), KFR_ENABLE_IF(is_poweroftwo(N))>
 KFR_INTRINSIC simd<double, Nout> simd_shuffle(simd2_t<double, N, N>, const simd<double, N>& x,
                                               const simd<double, N>& y, csizes_t<indices...> ind,
                                               overload_priority<2>) CMT_NOEXCEPT
-- 
2.43.0


From 1f35533b3bafa7c72f2bf14413670102fb220374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 086/124] fix: passes over slices, paddings and joined
 expressions were announced with wrong ranges

---
 include/kfr/base/basic_expressions.hpp | 42 ++++++++++++++++++++++++++
 include/kfr/base/expression.hpp        | 33 ++++++++++++++++++--
 2 files changed, 73 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index c1712a4..efd56e5 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -201,6 +201,18 @@ KFR_INTRINSIC void set_elements(const expression_slice<Arg>& self, const shape<N
 {
     set_elements(self.first(), index.add(self.start), sh, value);
 }
+
+template <typename Arg, index_t NDims>
+KFR_INTRINSIC void begin_pass(const expression_slice<Arg>& self, shape<NDims> start, shape<NDims> stop)
+{
+    begin_pass(self.first(), add_shape(start, self.start), add_shape(stop, self.start));
+}
+
+template <typename Arg, index_t NDims>
+KFR_INTRINSIC void end_pass(const expression_slice<Arg>& self, shape<NDims> start, shape<NDims> stop)
+{
+    end_pass(self.first(), add_shape(start, self.start), add_shape(stop, self.start));
+}
 } // namespace CMT_ARCH_NAME
 
 // ----------------------------------------------------------------------------
@@ -868,6 +880,36 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_concatenate<Arg1, Arg2, Co
     }
 }
 
+template <typename Arg1, typename Arg2, index_t ConcatAxis, index_t NDims>
+KFR_INTRINSIC void begin_pass(const expression_concatenate<Arg1, Arg2, ConcatAxis>& self, shape<NDims> start,
+                              shape<NDims> stop)
+{
+    const index_t size1 = self.size1[ConcatAxis];
+    shape<NDims> start1 = start, stop1 = stop;
+    shape<NDims> start2 = start, stop2 = stop;
+    start1[ConcatAxis]  = std::min(start[ConcatAxis], size1);
+    stop1[ConcatAxis]   = std::min(stop[ConcatAxis], size1);
+    start2[ConcatAxis]  = start[ConcatAxis] - start1[ConcatAxis];
+    stop2[ConcatAxis]   = stop[ConcatAxis] - stop1[ConcatAxis];
+    begin_pass(std::get<0>(self.args), start1, stop1);
+    begin_pass(std::get<1>(self.args), start2, stop2);
+}
+
+template <typename Arg1, typename Arg2, index_t ConcatAxis, index_t NDims>
+KFR_INTRINSIC void end_pass(const expression_concatenate<Arg1, Arg2, ConcatAxis>& self, shape<NDims> start,
+                              shape<NDims> stop)
+{
+    const index_t size1 = self.size1[ConcatAxis];
+    shape<NDims> start1 = start, stop1 = stop;
+    shape<NDims> start2 = start, stop2 = stop;
+    start1[ConcatAxis]  = std::min(start[ConcatAxis], size1);
+    stop1[ConcatAxis]   = std::min(stop[ConcatAxis], size1);
+    start2[ConcatAxis]  = start[ConcatAxis] - start1[ConcatAxis];
+    stop2[ConcatAxis]   = stop[ConcatAxis] - stop1[ConcatAxis];
+    end_pass(std::get<0>(self.args), start1, stop1);
+    end_pass(std::get<1>(self.args), start2, stop2);
+}
+
 // ----------------------------------------------------------------------------
 
 template <typename... Args>
diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index b271bfd..03ad2e3 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -333,6 +333,12 @@ struct expression_with_arguments
     }
 
     KFR_INTRINSIC expression_with_arguments(arg<Args&&>... args) : args{ std::forward<Args>(args)... }
+    {
+        update_masks();
+    }
+
+    /// @brief Adjusts broadcasting to the current shapes of the arguments
+    KFR_INTRINSIC void update_masks()
     {
         cforeach(csizeseq<count>,
                  [&](auto idx_) CMT_INLINE_LAMBDA
@@ -524,18 +530,41 @@ using expression_make_function = expression_function<Fn, arg<Args>...>;
 namespace internal
 {
 
+// Position of the beginning or the end of a pass in the coordinates of an argument (which may be broadcast)
+template <typename Arg, index_t Dims, bool stop>
+KFR_INTRINSIC auto pass_index(const Arg& arg, const shape<Dims>& index, cbool_t<stop>)
+{
+    using Traits = expression_traits<Arg>;
+    if constexpr (Traits::dims == 0)
+        return shape<0>{};
+    else if constexpr (Traits::dims <= Dims)
+    {
+        const shape<Traits::dims> size = Traits::get_shape(arg);
+        shape<Traits::dims> result     = index.template trim<Traits::dims>();
+        for (index_t i = 0; i < Traits::dims; ++i)
+            result[i] = !stop && size[i] == 1 ? 0 : std::min(result[i], size[i]);
+        return result;
+    }
+    else
+        return index;
+}
+
 template <typename... Args, index_t Dims, size_t... idx>
 KFR_INTRINSIC void begin_pass_args(const expression_with_arguments<Args...>& self, shape<Dims> start,
                                    shape<Dims> stop, csizes_t<idx...>)
 {
-    (begin_pass(std::get<idx>(self.args), start, stop), ...);
+    (begin_pass(std::get<idx>(self.args), pass_index(std::get<idx>(self.args), start, cfalse),
+                pass_index(std::get<idx>(self.args), stop, ctrue)),
+     ...);
 }
 
 template <typename... Args, index_t Dims, size_t... idx>
 KFR_INTRINSIC void end_pass_args(const expression_with_arguments<Args...>& self, shape<Dims> start,
                                  shape<Dims> stop, csizes_t<idx...>)
 {
-    (end_pass(std::get<idx>(self.args), start, stop), ...);
+    (end_pass(std::get<idx>(self.args), pass_index(std::get<idx>(self.args), start, cfalse),
+              pass_index(std::get<idx>(self.args), stop, ctrue)),
+     ...);
 }
 
 template <index_t outdims, typename Fn, typename... Args, index_t VecAxis, size_t N, index_t Dims, size_t idx,
-- 
2.43.0


From e8e14cbfb86a9f1851866b7d446c01c199a9f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 087/124] fix: placeholders did not pass on the beginning and
 end of passes

---
 include/kfr/base/handle.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 0dddb50..01c8b4d 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -343,6 +343,21 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_placeholder<T, Dims, Key>&
 {
     return self.handle ? get_elements(self.handle, index, sh) : 0;
 }
+
+template <typename T, index_t Dims, size_t Key>
+KFR_INTRINSIC void begin_pass(const expression_placeholder<T, Dims, Key>& self, shape<Dims> start,
+                              shape<Dims> stop)
+{
+    if (self.handle)
+        begin_pass(self.handle, start, stop);
+}
+template <typename T, index_t Dims, size_t Key>
+KFR_INTRINSIC void end_pass(const expression_placeholder<T, Dims, Key>& self, shape<Dims> start,
+                              shape<Dims> stop)
+{
+    if (self.handle)
+        end_pass(self.handle, start, stop);
+}
 } // namespace CMT_ARCH_NAME
 
 template <typename T, index_t Dims = 1, size_t Key = 0>
-- 
2.43.0


From 0b5daf8d6a1b5662f9ab0cc61e4c3692f9c4905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 088/124] fix: to_handle of a reference to a multidimensional
 expression did not compile

---
 include/kfr/base/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 01c8b4d..5cb42a5 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -297,7 +297,7 @@ KFR_INTRINSIC expression_vtable<T, Dims>* make_expression_vtable()
 template <typename E, typename T = expression_value_type<E>, index_t Dims = expression_dims<E>>
 KFR_INTRINSIC expression_handle<T, Dims> to_handle(E& expr)
 {
-    return expression_handle<T>(std::addressof(expr), internal::make_expression_vtable<T, Dims, E>());
+    return expression_handle<T, Dims>(std::addressof(expr), internal::make_expression_vtable<T, Dims, E>());
 }
 
 /** @brief Converts the given expression into an opaque object.
-- 
2.43.0


From d744a591da10585fa3d58f79eedc9387e020ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:32 +0000
Subject: [PATCH 089/124] fix: substitution replaced placeholders by nothing,
 only once or with stale shapes

---
 include/kfr/base/handle.hpp | 51 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 5cb42a5..ef1f07e 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -398,6 +398,47 @@ KFR_INTRINSIC bool substitute(expression_with_arguments<Args...>& expr, expressi
     return internal::substitute_helper(expr, std::move(new_handle), csize_t<Key>{}, indicesfor_t<Args...>{});
 }
 
+// Shapes obtained from the arguments on construction have to be updated
+template <typename Arg, typename T, index_t Dims, size_t Key = 0>
+KFR_INTRINSIC bool substitute(expression_padded<Arg>& expr, expression_handle<T, Dims> new_handle,
+                              csize_t<Key> key = csize_t<Key>{})
+{
+    if (!substitute(static_cast<expression_with_arguments<Arg>&>(expr), std::move(new_handle), key))
+        return false;
+    expr.input_shape = get_shape(expr.first());
+    return true;
+}
+
+template <typename Arg, typename T, index_t Dims, size_t Key = 0>
+KFR_INTRINSIC bool substitute(expression_reverse<Arg>& expr, expression_handle<T, Dims> new_handle,
+                              csize_t<Key> key = csize_t<Key>{})
+{
+    if (!substitute(static_cast<expression_with_arguments<Arg>&>(expr), std::move(new_handle), key))
+        return false;
+    expr.input_shape = get_shape(expr.first());
+    return true;
+}
+
+template <typename Arg, index_t OutDims, typename T, index_t Dims, size_t Key = 0>
+KFR_INTRINSIC bool substitute(expression_reshape<Arg, OutDims>& expr, expression_handle<T, Dims> new_handle,
+                              csize_t<Key> key = csize_t<Key>{})
+{
+    if (!substitute(static_cast<expression_with_arguments<Arg>&>(expr), std::move(new_handle), key))
+        return false;
+    expr.in_shape = get_shape(expr.first());
+    return true;
+}
+
+template <typename Arg1, typename Arg2, index_t ConcatAxis, typename T, index_t Dims, size_t Key = 0>
+KFR_INTRINSIC bool substitute(expression_concatenate<Arg1, Arg2, ConcatAxis>& expr, expression_handle<T, Dims> new_handle,
+                              csize_t<Key> key = csize_t<Key>{})
+{
+    if (!substitute(static_cast<expression_with_arguments<Arg1, Arg2>&>(expr), std::move(new_handle), key))
+        return false;
+    expr.size1 = get_shape(expr.first());
+    return true;
+}
+
 template <typename T, index_t Dims, size_t Key = 0>
 KFR_INTRINSIC bool substitute(expression_handle<T, Dims>& expr, expression_handle<T, Dims> new_handle,
                               csize_t<Key> = csize_t<Key>{})
@@ -416,7 +457,15 @@ KFR_INTRINSIC bool substitute_helper(expression_with_arguments<Args...>& expr,
                                      expression_handle<T, Dims> new_handle, csize_t<Key>,
                                      csizes_t<indices...>)
 {
-    return (substitute(std::get<indices>(expr.args), std::move(new_handle), csize_t<Key>()) || ...);
+    // every occurrence is replaced
+    bool replaced = false;
+    ((replaced |= substitute(std::get<indices>(expr.args), new_handle, csize_t<Key>())), ...);
+    if constexpr (sizeof...(Args) > 1)
+    {
+        if (replaced)
+            expr.update_masks(); // the shapes of the arguments may be different now
+    }
+    return replaced;
 }
 
 template <typename Expression, typename T, index_t Dims, size_t Key>
-- 
2.43.0


From c80a6d66712da1f2ff6b68d85e88a6d95696801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 090/124] fix: writing through an expression handle did not
 compile

---
 include/kfr/base/handle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index ef1f07e..75acecc 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -269,7 +269,9 @@ KFR_INTRINSIC void set_elements(const expression_handle<T, NDims>& self, const s
     }
     else
     {
-        self.vtable->fn_set_elements[Axis][Nsize](self.instance, index, &value.front());
+        T data[N];
+        write(data, value);
+        self.vtable->fn_set_elements[Axis][Nsize](self.instance, index, data);
     }
 }
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From 834e4a9c9679458464e0827e9272079681b74eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:49 +0000
Subject: [PATCH 091/124] fix: an empty pass at the end was announced as the
 last element

---
 include/kfr/base/expression.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 03ad2e3..400f8c9 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -791,8 +791,10 @@ static auto process(Out&& out, In&& in, shape<outdims> start = shape<outdims>(0)
     if constexpr (indims > 0)
         in_size = inshape[in_axis];
 
+    const auto in_start = internal::pass_index(in, min(start, stop), cfalse);
+    const auto in_stop  = internal::pass_index(in, stop, ctrue);
     begin_pass(out, start, stop);
-    begin_pass(in, inshape.adapt(start), inshape.adapt(stop, ctrue));
+    begin_pass(in, in_start, in_stop);
 
     shape<outdims> outidx;
     if constexpr (outdims == 1)
@@ -864,7 +866,7 @@ static auto process(Out&& out, In&& in, shape<outdims> start = shape<outdims>(0)
             } while (internal_generic::increment_indices(outidx, start, stop));
         }
     }
-    end_pass(in, inshape.adapt(start), inshape.adapt(stop, ctrue));
+    end_pass(in, in_start, in_stop);
     end_pass(out, start, stop);
     return stop;
 }
-- 
2.43.0


From 7565a6a41f4ad66c0de4ba3ebe74b1d213f1dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 092/124] fix: joining with an empty expression gave an empty
 expression

---
 include/kfr/base/basic_expressions.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index efd56e5..b0188d6 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -817,8 +817,12 @@ struct expression_traits<expression_concatenate<Arg1, Arg2, ConcatAxis>> : expre
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape(
         const expression_concatenate<Arg1, Arg2, ConcatAxis>& self)
     {
-        return concat_shape(ArgTraits1::get_shape(std::get<0>(self.args)),
-                            ArgTraits2::get_shape(std::get<1>(self.args)));
+        const shape<dims> sh1 = ArgTraits1::get_shape(std::get<0>(self.args));
+        const shape<dims> sh2 = ArgTraits2::get_shape(std::get<1>(self.args));
+        shape<dims> result    = min(sh1, sh2);
+        // sizes are known here, zero is an empty expression
+        result[ConcatAxis] = add_shape(sh1, sh2)[ConcatAxis];
+        return result;
     }
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape()
     {
-- 
2.43.0


From c28f35236072860552cef881b0f8957953c26de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 093/124] fix: making the state of an FIR filter took the
 coefficients away from the caller's vector

---
 include/kfr/dsp/fir.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index 5d79100..095977e 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -99,7 +99,8 @@ struct fir_state
     {
     }
     template <typename Cont, CMT_HAS_DATA_SIZE(Cont)>
-    fir_state(Cont&& taps) : params(std::move(taps)), delayline(params.taps.size(), U(0)), delayline_cursor(0)
+    fir_state(Cont&& taps)
+        : params(std::forward<Cont>(taps)), delayline(params.taps.size(), U(0)), delayline_cursor(0)
     {
     }
     template <typename Cont, CMT_HAS_DATA_SIZE(Cont)>
-- 
2.43.0


From 359c829749f27698d2dd0a9b356e2a456d0bb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 094/124] fix: a truncated npy file was loaded as uninitialized
 elements

---
 include/kfr/base/npy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 7971a24..cfcf93f 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -472,7 +472,8 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
 
     tensor<T, 1> buffer(shape<1>{ sh.product() });
 
-    rd(ctype<T>, buffer.data(), buffer.size());
+    if (!rd(ctype<T>, buffer.data(), buffer.size()))
+        return npy_decode_result::cannot_read;
     if (convert_endianness)
     {
         convert_endianess(buffer.data(), buffer.size());
-- 
2.43.0


From 0dcd9ca6342e58702fff71c250b74d36d7ad971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 095/124] fix: npy files with huge shapes made the loader throw
 or build tensors larger than their memory

---
 include/kfr/base/npy.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index cfcf93f..377615b 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -242,13 +242,18 @@ inline bool npy_parse_bool(std::string_view& data, bool& content)
 }
 inline bool npy_parse_integer(std::string_view& data, index_t& content)
 {
-    const char* orig = data.data();
-    if (data[0] < '0' || data[0] > '9')
+    if (data.empty() || data[0] < '0' || data[0] > '9')
         return false;
 
-    while (data[0] >= '0' && data[0] <= '9')
-        data = data.substr(1);
-    content = std::stoll(std::string(orig, data.data() - orig));
+    content = 0;
+    while (!data.empty() && data[0] >= '0' && data[0] <= '9')
+    {
+        const index_t digit = static_cast<index_t>(data[0] - '0');
+        if (content > (max_index_t - digit) / 10)
+            return false;
+        content = content * 10 + digit;
+        data    = data.substr(1);
+    }
     return true;
 }
 inline bool npy_parse_shape(std::string_view& data, std::vector<index_t>& content)
@@ -469,8 +474,20 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
     std::copy(hdr.shape.begin(), hdr.shape.end(), sh.begin());
     if (sh.product() == 0)
         return npy_decode_result::invalid_shape;
+    // number of elements that can be addressed
+    index_t available = static_cast<index_t>(std::min<uint64_t>(max_index_t, PTRDIFF_MAX) / sizeof(T));
+    for (index_t i : sh)
+    {
+        if (i == 0)
+            return npy_decode_result::invalid_shape;
+        available /= i;
+    }
+    if (available == 0)
+        return npy_decode_result::invalid_shape;
 
     tensor<T, 1> buffer(shape<1>{ sh.product() });
+    if (buffer.data() == nullptr)
+        return npy_decode_result::cannot_read;
 
     if (!rd(ctype<T>, buffer.data(), buffer.size()))
         return npy_decode_result::cannot_read;
-- 
2.43.0


From 14c03c8a80f7b024140601afbf3ce2378ea40f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 096/124] fix: brackets in an unknown field of an npy header
 hung the loader

---
 include/kfr/base/npy.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 377615b..a5ff476 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -198,17 +198,26 @@ inline bool npy_skip_value(std::string_view& data, char close = '}', std::string
                 return false;
             break;
         case '(':
+            context += ')';
+            data = data.substr(1);
+            break;
         case '[':
+            context += ']';
+            data = data.substr(1);
+            break;
         case '{':
-            context += data[0];
+            context += '}';
+            data = data.substr(1);
             break;
         case ')':
         case ']':
         case '}':
             if (context.empty())
                 return data[0] == close;
-            if (context.back() == data[0])
-                context.pop_back();
+            if (context.back() != data[0])
+                return false;
+            context.pop_back();
+            data = data.substr(1);
             break;
         case ',':
             if (context.empty())
-- 
2.43.0


From 7c66ff6701996d0e845179bb1675fa286d5dceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 097/124] fix: a space before a comma or the closing brace of
 an npy header was rejected

---
 include/kfr/base/npy.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index a5ff476..f2c6058 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -267,7 +267,7 @@ inline bool npy_parse_integer(std::string_view& data, index_t& content)
 }
 inline bool npy_parse_shape(std::string_view& data, std::vector<index_t>& content)
 {
-    if (data[0] != '(')
+    if (data.empty() || data[0] != '(')
         return false;
     data = data.substr(1);
     if (!npy_skip_whitespace(data))
@@ -351,9 +351,11 @@ inline bool npy_decode_dict(std::string_view data, npy_header& hdr)
         {
             return false;
         }
+        if (!npy_skip_whitespace(data))
+            return false;
         if (data[0] == '}')
             return true;
-        if (data.empty() || data[0] != ',')
+        if (data[0] != ',')
             return false;
         data = data.substr(1);
         if (!npy_skip_whitespace(data))
-- 
2.43.0


From 0df4bcf6df07d8514cb267c3b79f9a84437aae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 098/124] fix: boolean tensors were saved to npy as unsigned
 integers and boolean npy files could not be loaded

---
 include/kfr/base/npy.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index f2c6058..c0910b9 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -40,7 +40,11 @@ std::string_view npy_format()
 {
     using namespace cometa;
     static_assert(is_poweroftwo(sizeof(T)) && is_between(sizeof(T), 1, 16));
-    if constexpr (std::is_floating_point_v<T>)
+    if constexpr (std::is_same_v<T, bool>)
+    {
+        return "|b1";
+    }
+    else if constexpr (std::is_floating_point_v<T>)
     {
         const std::string_view fmts[] = { "|f1", "<f2", "<f4", "<f8" };
         static_assert(sizeof(T) <= 8);
@@ -64,10 +68,6 @@ std::string_view npy_format()
         static_assert(sizeof(T) <= 16);
         return fmts[ilog2(sizeof(T))];
     }
-    else if constexpr (std::is_same_v<T, bool>)
-    {
-        return "|b1";
-    }
     else
     {
         static_assert("Cannot save type to python");
-- 
2.43.0


From 3c0aeb3a186a00fc82aed4eba46e694b52e2eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 099/124] fix: a damaged npy header size made the loader
 allocate gigabytes

---
 include/kfr/base/npy.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index c0910b9..8705cb0 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -143,9 +143,15 @@ struct npy_reader
 
     std::string operator()(cometa::ctype_t<char>, size_t count)
     {
-        std::string result(count, ' ');
-        if (!operator()(cometa::ctype<char>, result.data(), count))
-            return {};
+        // in blocks, the size may come from a damaged file
+        std::string result;
+        while (result.size() < count)
+        {
+            const size_t pos = result.size();
+            result.resize(pos + std::min<size_t>(count - pos, 65536), ' ');
+            if (!operator()(cometa::ctype<char>, result.data() + pos, result.size() - pos))
+                return {};
+        }
         return result;
     }
 };
-- 
2.43.0


From 316b5f963c387ab2d451224d0c1201ac8e83119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 100/124] fix: an npy file of more elements than memory crashed
 the loader

---
 include/kfr/base/npy.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 8705cb0..ae0c5ad 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -502,9 +502,11 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
     if (available == 0)
         return npy_decode_result::invalid_shape;
 
-    tensor<T, 1> buffer(shape<1>{ sh.product() });
-    if (buffer.data() == nullptr)
+    T* ptr = aligned_allocate<T>(sh.product());
+    if (ptr == nullptr)
         return npy_decode_result::cannot_read;
+    tensor<T, 1> buffer(ptr, shape<1>{ sh.product() },
+                        make_memory_finalizer([ptr]() { aligned_deallocate(ptr); }));
 
     if (!rd(ctype<T>, buffer.data(), buffer.size()))
         return npy_decode_result::cannot_read;
-- 
2.43.0


From f725a1ee90bf1d32e5fb955fdd50a66872488659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 101/124] fix: loading boolean npy files did not compile

---
 include/kfr/base/npy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index ae0c5ad..4c7e0a5 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -510,9 +510,10 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
 
     if (!rd(ctype<T>, buffer.data(), buffer.size()))
         return npy_decode_result::cannot_read;
-    if (convert_endianness)
+    if constexpr (sizeof(T) > 1)
     {
-        convert_endianess(buffer.data(), buffer.size());
+        if (convert_endianness)
+            convert_endianess(buffer.data(), buffer.size());
     }
     if (hdr.fortran_order)
     {
-- 
2.43.0


From fc2e1f00781fa51aa6bde7c2904241f014f6879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 102/124] fix: npy files with an invalid byte order were loaded

---
 include/kfr/base/npy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 4c7e0a5..4bae642 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -475,7 +475,8 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
     bool convert_endianness = false;
     if (hdr.descr != tfmt)
     {
-        if (hdr.descr.size() > 1 && hdr.descr[0] != tfmt[0] && hdr.descr.substr(1) == tfmt.substr(1))
+        if (hdr.descr.size() > 1 && std::string_view("<>|=").find(hdr.descr[0]) != std::string_view::npos &&
+            hdr.descr.substr(1) == tfmt.substr(1))
         {
             convert_endianness = hdr.descr[0] == '>';
         }
-- 
2.43.0


From 11b5dadf4b1cd342c1ec76155c0cde13224954c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 103/124] fix: reading elements past the end of a file returned
 elements that are not in it

---
 include/kfr/io/file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/io/file.hpp b/include/kfr/io/file.hpp
index e14caad..0f1d57e 100644
--- a/include/kfr/io/file.hpp
+++ b/include/kfr/io/file.hpp
@@ -123,7 +123,7 @@ struct abstract_reader : abstract_stream<T>
     univector<T> read(size_t size)
     {
         univector<T> result(size);
-        this->read(result);
+        result.resize(this->read(result));
         return result;
     }
     bool read(std::conditional_t<std::is_void_v<T>, internal_generic::empty, T>& data)
-- 
2.43.0


From 6087ed37768d5e052351a425fd2a4b70f1a89c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 104/124] fix: reader and writer adapters could not be created
 and transferred wrong numbers of elements

---
 include/kfr/io/file.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/kfr/io/file.hpp b/include/kfr/io/file.hpp
index 0f1d57e..8c864ec 100644
--- a/include/kfr/io/file.hpp
+++ b/include/kfr/io/file.hpp
@@ -159,9 +159,13 @@ struct reader_adapter : abstract_reader<To>
     reader_adapter(std::shared_ptr<abstract_reader<From>>&& reader) : reader(std::move(reader)) {}
     virtual size_t read(To* data, size_t size) final
     {
-        return reader->read(reinterpret_cast<From*>(data), size * element_size<From>() / element_size<To>()) *
-               element_size<To>() / element_size<From>();
+        return reader->read(reinterpret_cast<From*>(data), size * element_size<To>() / element_size<From>()) *
+               element_size<From>() / element_size<To>();
     }
+    using abstract_reader<To>::read;
+
+    imax tell() const override { return reader->tell(); }
+    bool seek(imax offset, seek_origin origin) override { return reader->seek(offset, origin); }
     std::shared_ptr<abstract_reader<From>> reader;
 };
 
@@ -175,9 +179,13 @@ struct writer_adapter : abstract_writer<To>
     virtual size_t write(const To* data, size_t size) final
     {
         return writer->write(reinterpret_cast<const From*>(data),
-                             size * element_size<From>() / element_size<To>()) *
-               element_size<To>() / element_size<From>();
+                             size * element_size<To>() / element_size<From>()) *
+               element_size<From>() / element_size<To>();
     }
+    using abstract_writer<To>::write;
+
+    imax tell() const override { return writer->tell(); }
+    bool seek(imax offset, seek_origin origin) override { return writer->seek(offset, origin); }
     std::shared_ptr<abstract_writer<From>> writer;
 };
 
-- 
2.43.0


From dd4ae4aa2d4dc61894ccf552bc3b1ba3944141aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 105/124] fix: writing samples in the format of the WAV file
 wrote as many frames as there were samples

---
 src/io/audiofile-impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 4f54076..aa3d1f9 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -150,7 +150,7 @@ size_t audio_writer_wav<T>::write(const T* data, size_t size)
         return 0;
     if (fmt.type == audio_sample_traits<T>::type)
     {
-        const size_t sz = drwav_write_pcm_frames_le(f.get(), size, data);
+        const size_t sz = drwav_write_pcm_frames_le(f.get(), size / fmt.channels, data);
         fmt.length += sz;
         return sz * fmt.channels;
     }
-- 
2.43.0


From 4aa6f45f5977c599f08238abf51e173210703d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 106/124] fix: files that are not WAV, FLAC or MP3 crashed
 their readers

---
 include/kfr/io/audiofile.hpp |  2 ++
 src/io/audiofile-impl.cpp    | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/kfr/io/audiofile.hpp b/include/kfr/io/audiofile.hpp
index 6071f11..b81c887 100644
--- a/include/kfr/io/audiofile.hpp
+++ b/include/kfr/io/audiofile.hpp
@@ -62,6 +62,8 @@ struct audio_reader : public abstract_reader<T>
 
     univector2d<T> read_channels(size_t size)
     {
+        if (format().channels == 0)
+            return {};
         univector<T> interleaved = read(size * format().channels);
         univector2d<T> input_channels(format().channels,
                                       univector<T>(interleaved.size() / format().channels));
diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index aa3d1f9..292a67f 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -185,9 +185,18 @@ template struct audio_writer_wav<f64>;
 template <typename T>
 audio_reader_wav<T>::audio_reader_wav(std::shared_ptr<abstract_reader<>>&& reader) : reader(std::move(reader))
 {
+    fmt.type = audio_sample_type::unknown;
     f.reset(new internal_generic::wav_file());
-    drwav_init(f.get(), (drwav_read_proc)&internal_generic::drwav_reader_read_proc,
-               (drwav_seek_proc)&internal_generic::drwav_reader_seek_proc, this->reader.get(), nullptr);
+    if (!drwav_init(f.get(), (drwav_read_proc)&internal_generic::drwav_reader_read_proc,
+                    (drwav_seek_proc)&internal_generic::drwav_reader_seek_proc, this->reader.get(),
+                    nullptr) ||
+        f->channels == 0)
+    {
+        f.reset();
+        fmt.channels   = 0;
+        fmt.samplerate = 0;
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(f->totalPCMFrameCount);
@@ -289,6 +298,13 @@ audio_reader_flac<T>::audio_reader_flac(std::shared_ptr<abstract_reader<>>&& rea
     f.reset(reinterpret_cast<internal_generic::flac_file*>(drflac_open(
         (drflac_read_proc)&internal_generic::drflac_reader_read_proc,
         (drflac_seek_proc)&internal_generic::drflac_reader_seek_proc, this->reader.get(), nullptr)));
+    if (!f)
+    {
+        fmt.type       = audio_sample_type::unknown;
+        fmt.channels   = 0;
+        fmt.samplerate = 0;
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(f->totalPCMFrameCount);
@@ -349,9 +365,16 @@ template <typename T>
 audio_reader_mp3<T>::audio_reader_mp3(std::shared_ptr<abstract_reader<>>&& reader) : reader(std::move(reader))
 {
     f.reset(new internal_generic::mp3_file());
-    drmp3_init(f.get(), (drmp3_read_proc)&internal_generic::drmp3_reader_read_proc,
-               (drmp3_seek_proc)&internal_generic::drmp3_reader_seek_proc, this->reader.get(),
-               reinterpret_cast<const drmp3_config*>(&config), nullptr);
+    if (!drmp3_init(f.get(), (drmp3_read_proc)&internal_generic::drmp3_reader_read_proc,
+                    (drmp3_seek_proc)&internal_generic::drmp3_reader_seek_proc, this->reader.get(),
+                    reinterpret_cast<const drmp3_config*>(&config), nullptr))
+    {
+        delete f.release();
+        fmt.type       = audio_sample_type::unknown;
+        fmt.channels   = 0;
+        fmt.samplerate = 0;
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(drmp3_get_pcm_frame_count(f.get()));
-- 
2.43.0


From 9373d6498e2817fcb91f368fd30ac986c40c8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 107/124] fix: seeking in audio files did not update the
 position

---
 src/io/audiofile-impl.cpp | 61 ++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 292a67f..2433ed0 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -121,6 +121,22 @@ void mp3_file_deleter::operator()(mp3_file* f)
 
 } // namespace internal_generic
 
+namespace internal_generic
+{
+/// Seeks using fn(position), a position after the end is refused, at failure the position remains
+template <typename Fn>
+static bool audio_seek(imax& position, imax length, imax offset, seek_origin origin, Fn&& fn)
+{
+    const imax base = origin == seek_origin::begin ? 0 : origin == seek_origin::end ? length : position;
+    if (offset < -base || offset > length - base)
+        return false;
+    if (!fn(base + offset))
+        return false;
+    position = base + offset;
+    return true;
+}
+} // namespace internal_generic
+
 template <typename T>
 audio_writer_wav<T>::audio_writer_wav(std::shared_ptr<abstract_writer<>>&& writer, const audio_format& fmt)
     : writer(std::move(writer)), fmt(fmt)
@@ -273,16 +289,11 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_wav<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    if (!f)
+        return false;
+    return internal_generic::audio_seek(position, fmt.length, offset, origin,
+                                        [&](imax target) { return drwav_seek_to_pcm_frame(
+                                                               f.get(), static_cast<drwav_uint64>(target)); });
 }
 
 template struct audio_reader_wav<i16>;
@@ -340,16 +351,11 @@ size_t audio_reader_flac<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_flac<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    if (!f)
+        return false;
+    return internal_generic::audio_seek(position, fmt.length, offset, origin,
+                                        [&](imax target) { return drflac_seek_to_pcm_frame(
+                                                               f.get(), static_cast<drflac_uint64>(target)); });
 }
 
 template struct audio_reader_flac<i16>;
@@ -410,16 +416,11 @@ size_t audio_reader_mp3<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_mp3<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    if (!f)
+        return false;
+    return internal_generic::audio_seek(position, fmt.length, offset, origin,
+                                        [&](imax target) { return drmp3_seek_to_pcm_frame(
+                                                               f.get(), static_cast<drmp3_uint64>(target)); });
 }
 
 template struct audio_reader_mp3<i16>;
-- 
2.43.0


From 9163e111929cf2330d2982ad97d6e7bd562e3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 108/124] fix: 8-bit WAV samples were written and read as
 signed

---
 src/io/audiofile-impl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 2433ed0..e4fdf1a 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -174,6 +174,10 @@ size_t audio_writer_wav<T>::write(const T* data, size_t size)
     {
         univector<uint8_t> native(size * audio_sample_sizeof(fmt.type));
         convert(native.data(), fmt.type, data, size);
+        // samples of 8 bits are unsigned in WAV files
+        if (fmt.type == audio_sample_type::i8)
+            for (uint8_t& sample : native)
+                sample ^= 0x80;
         const size_t sz = drwav_write_pcm_frames_le(f.get(), size / fmt.channels, native.data());
         fmt.length += sz;
         return sz * fmt.channels;
@@ -281,6 +285,9 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
         univector<uint8_t> native(size * audio_sample_sizeof(fmt.type));
         const size_t sz = drwav_read_pcm_frames(f.get(), size / fmt.channels, native.data());
         position += sz;
+        if (fmt.type == audio_sample_type::i8)
+            for (uint8_t& sample : native)
+                sample ^= 0x80;
         convert(data, native.data(), fmt.type, sz * fmt.channels);
         return sz * fmt.channels;
     }
-- 
2.43.0


From 957c3ea91964fee459f810c4dcd4fca495f4f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 109/124] fix: seeking to the end of a WAV file moved to its
 last frame

---
 src/io/dr/dr_wav.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index 44fc774..d3250f4 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -2940,8 +2940,8 @@ drwav_bool32 drwav_seek_to_pcm_frame(drwav* pWav, drwav_uint64 targetFrameIndex)
     }
 
     /* Make sure the sample is clamped. */
-    if (targetFrameIndex >= pWav->totalPCMFrameCount) {
-        targetFrameIndex  = pWav->totalPCMFrameCount - 1;
+    if (targetFrameIndex > pWav->totalPCMFrameCount) {
+        targetFrameIndex = pWav->totalPCMFrameCount;
     }
 
     /*
-- 
2.43.0


From 875177f5df26f078b78407e8f1b381b391e1521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 110/124] fix: the format of W64 files was reported as RIFF

---
 src/io/audiofile-impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index e4fdf1a..1f58634 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -220,6 +220,7 @@ audio_reader_wav<T>::audio_reader_wav(std::shared_ptr<abstract_reader<>>&& reade
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(f->totalPCMFrameCount);
+    fmt.use_w64    = f->container == drwav_container_w64;
     switch (f->translatedFormatTag)
     {
     case DR_WAVE_FORMAT_IEEE_FLOAT:
-- 
2.43.0


From 84396f94730c5b5f134b2d3196e9ffcded65b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 111/124] fix: MP3 samples equal to -1 were read as 0 at the
 end of a block

---
 src/io/dr/dr_mp3.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/io/dr/dr_mp3.h b/src/io/dr/dr_mp3.h
index 98592e2..587f98c 100644
--- a/src/io/dr/dr_mp3.h
+++ b/src/io/dr/dr_mp3.h
@@ -2291,9 +2291,8 @@ void drmp3dec_f32_to_s16(const float *in, drmp3_int16 *out, int num_samples)
                 out[i] = (drmp3_int16)-32768;
             else
             {
-                short s = (drmp3_int16)(sample + .5f);
-                s -= (s < 0);   /* away from zero, to be compliant */
-                out[i] = s;
+                /* away from zero, to be compliant */
+                out[i] = (drmp3_int16)(sample < 0 ? sample - .5f : sample + .5f);
             }
         }
     }
-- 
2.43.0


From 7f04452269c79c89fe2fa5ca626535ef8f1b4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 112/124] fix: FLAC samples of more than 16 bits were decoded
 with products that overflowed

---
 src/io/dr/dr_flac.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index a38abf9..c5eac74 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -2480,6 +2480,19 @@ static drflac_result drflac__read_utf8_coded_number(drflac_bs* bs, drflac_uint64
 
 
 
+/* The sum of products fits 32 bits only if it does so for the largest samples. */
+static drflac_bool32 drflac__use_64_bit_prediction(drflac_uint32 bitsPerSample, drflac_uint32 order, const drflac_int32* coefficients)
+{
+    drflac_uint32 i;
+    drflac_uint64 sum = 0;
+
+    for (i = 0; i < order; ++i) {
+        sum += (drflac_uint64)(coefficients[i] < 0 ? -coefficients[i] : coefficients[i]);
+    }
+
+    return (sum << (bitsPerSample - 1)) > 0x7FFFFFFF;
+}
+
 /*
 The next two functions are responsible for calculating the prediction.
 
@@ -3164,7 +3177,7 @@ static drflac_bool32 drflac__decode_samples_with_residual__rice__scalar(drflac_b
     riceParamMask  = (drflac_uint32)~((~0UL) << riceParam);
     pSamplesOutEnd = pSamplesOut + (count & ~3);
 
-    if (bitsPerSample+shift > 32) {
+    if (drflac__use_64_bit_prediction(bitsPerSample, order, coefficients)) {
         while (pSamplesOut < pSamplesOutEnd) {
             /*
             Rice extraction. It's faster to do this one at a time against local variables than it is to use the x4 version
@@ -3246,7 +3259,7 @@ static drflac_bool32 drflac__decode_samples_with_residual__rice__scalar(drflac_b
         /*riceParamPart0  = (riceParamPart0 >> 1) ^ (~(riceParamPart0 & 0x01) + 1);*/
 
         /* Sample reconstruction. */
-        if (bitsPerSample+shift > 32) {
+        if (drflac__use_64_bit_prediction(bitsPerSample, order, coefficients)) {
             pSamplesOut[0] = riceParamPart0 + drflac__calculate_prediction_64(order, shift, coefficients, pSamplesOut + 0);
         } else {
             pSamplesOut[0] = riceParamPart0 + drflac__calculate_prediction_32(order, shift, coefficients, pSamplesOut + 0);
@@ -3713,7 +3726,7 @@ static drflac_bool32 drflac__decode_samples_with_residual__rice__sse41(drflac_bs
 
     /* In my testing the order is rarely > 12, so in this case I'm going to simplify the SSE implementation by only handling order <= 12. */
     if (order > 0 && order <= 12) {
-        if (bitsPerSample+shift > 32) {
+        if (drflac__use_64_bit_prediction(bitsPerSample, order, coefficients)) {
             return drflac__decode_samples_with_residual__rice__sse41_64(bs, count, riceParam, order, shift, coefficients, pSamplesOut);
         } else {
             return drflac__decode_samples_with_residual__rice__sse41_32(bs, count, riceParam, order, shift, coefficients, pSamplesOut);
@@ -4201,7 +4214,7 @@ static drflac_bool32 drflac__decode_samples_with_residual__rice__neon(drflac_bs*
 
     /* In my testing the order is rarely > 12, so in this case I'm going to simplify the NEON implementation by only handling order <= 12. */
     if (order > 0 && order <= 12) {
-        if (bitsPerSample+shift > 32) {
+        if (drflac__use_64_bit_prediction(bitsPerSample, order, coefficients)) {
             return drflac__decode_samples_with_residual__rice__neon_64(bs, count, riceParam, order, shift, coefficients, pSamplesOut);
         } else {
             return drflac__decode_samples_with_residual__rice__neon_32(bs, count, riceParam, order, shift, coefficients, pSamplesOut);
@@ -4268,7 +4281,7 @@ static drflac_bool32 drflac__decode_samples_with_residual__unencoded(drflac_bs*
             pSamplesOut[i] = 0;
         }
 
-        if (bitsPerSample >= 24) {
+        if (drflac__use_64_bit_prediction(bitsPerSample, order, coefficients)) {
             pSamplesOut[i] += drflac__calculate_prediction_64(order, shift, coefficients, pSamplesOut + i);
         } else {
             pSamplesOut[i] += drflac__calculate_prediction_32(order, shift, coefficients, pSamplesOut + i);
-- 
2.43.0


From e0d3bce9f52f519ba69aed481a02c08250e56608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 113/124] fix: sizes taken from damaged audio files were
 skipped in billions of steps

---
 src/io/audiofile-impl.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 1f58634..da75244 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -54,6 +54,14 @@ namespace kfr
 
 namespace internal_generic
 {
+/// Steps of the maximum size are parts of seeks over sizes taken from the file. They end at the end of the file
+static bool reader_seek(abstract_reader<void>* file, int offset, seek_origin origin)
+{
+    if (offset != 0x7FFFFFFF)
+        return file->seek(offset, origin);
+    uint8_t last;
+    return file->seek(offset - 1, origin) && file->read(&last, 1) == 1;
+}
 #ifndef KFR_DISABLE_WAV
 size_t drwav_writer_write_proc(abstract_writer<void>* file, const void* pData, size_t bytesToWrite)
 {
@@ -69,7 +77,8 @@ size_t drwav_reader_read_proc(abstract_reader<void>* file, void* pBufferOut, siz
 }
 drwav_bool32 drwav_reader_seek_proc(abstract_reader<void>* file, int offset, drwav_seek_origin origin)
 {
-    return file->seek(offset, origin == drwav_seek_origin_start ? seek_origin::begin : seek_origin::current);
+    return reader_seek(file, offset,
+                       origin == drwav_seek_origin_start ? seek_origin::begin : seek_origin::current);
 }
 #endif
 #ifndef KFR_DISABLE_FLAC
@@ -79,7 +88,8 @@ size_t drflac_reader_read_proc(abstract_reader<void>* file, void* pBufferOut, si
 }
 drflac_bool32 drflac_reader_seek_proc(abstract_reader<void>* file, int offset, drflac_seek_origin origin)
 {
-    return file->seek(offset, origin == drflac_seek_origin_start ? seek_origin::begin : seek_origin::current);
+    return reader_seek(file, offset,
+                       origin == drflac_seek_origin_start ? seek_origin::begin : seek_origin::current);
 }
 #endif
 #ifndef KFR_DISABLE_MP3
@@ -89,7 +99,8 @@ size_t drmp3_reader_read_proc(abstract_reader<void>* file, void* pBufferOut, siz
 }
 drmp3_bool32 drmp3_reader_seek_proc(abstract_reader<void>* file, int offset, drmp3_seek_origin origin)
 {
-    return file->seek(offset, origin == drmp3_seek_origin_start ? seek_origin::begin : seek_origin::current);
+    return reader_seek(file, offset,
+                       origin == drmp3_seek_origin_start ? seek_origin::begin : seek_origin::current);
 }
 #endif
 
-- 
2.43.0


From 30325995ed3f47edf0caa8bfada700aa3f09c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:46 +0000
Subject: [PATCH 114/124] fix: seeking in damaged FLAC files did not end

---
 src/io/dr/dr_flac.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index c5eac74..4b80eee 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -5284,6 +5284,8 @@ static drflac_bool32 drflac__seek_to_approximate_flac_frame_to_byte(drflac* pFla
     *pLastSuccessfulSeekOffset = pFlac->firstFLACFramePosInBytes;
 
     for (;;) {
+        const drflac_uint64 lastTargetByte = targetByte;
+
         /* When seeking to a byte, failure probably means we've attempted to seek beyond the end of the stream. To counter this we just halve it each attempt. */
         if (!drflac__seek_to_byte(&pFlac->bs, targetByte)) {
             /* If we couldn't even seek to the first byte in the stream we have a problem. Just abandon the whole thing. */
@@ -5324,6 +5326,11 @@ static drflac_bool32 drflac__seek_to_approximate_flac_frame_to_byte(drflac* pFla
             }
 #endif
         }
+
+        /* The range cannot become smaller: there is no frame in it. */
+        if (targetByte == lastTargetByte) {
+            return DRFLAC_FALSE;
+        }
     }
 
     /* The current PCM frame needs to be updated based on the frame we just seeked to. */
-- 
2.43.0


From bd02b0b3a22c260abd90a260677ad15e2a946b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:43 +0000
Subject: [PATCH 115/124] fix: FLAC samples were read from frames whose
 decoding had failed

---
 src/io/dr/dr_flac.h | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index 4b80eee..893250c 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -5058,6 +5058,14 @@ static drflac_result drflac__seek_flac_frame(drflac* pFlac)
     return DRFLAC_SUCCESS;
 }
 
+/* The samples of the last frame are lost as soon as its header is overwritten. */
+static drflac_bool32 drflac__read_header_of_next_flac_frame(drflac* pFlac)
+{
+    pFlac->currentFLACFrame.pcmFramesRemaining = 0;
+    DRFLAC_ZERO_MEMORY(pFlac->currentFLACFrame.subframes, sizeof(pFlac->currentFLACFrame.subframes));
+    return drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header);
+}
+
 static drflac_bool32 drflac__read_and_decode_next_flac_frame(drflac* pFlac)
 {
     DRFLAC_ASSERT(pFlac != NULL);
@@ -5065,7 +5073,7 @@ static drflac_bool32 drflac__read_and_decode_next_flac_frame(drflac* pFlac)
     for (;;) {
         drflac_result result;
 
-        if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+        if (!drflac__read_header_of_next_flac_frame(pFlac)) {
             return DRFLAC_FALSE;
         }
 
@@ -5169,7 +5177,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__brute_force(drflac* pFlac, drfla
 
         /* The frame header for the first frame may not yet have been read. We need to do that if necessary. */
         if (pFlac->currentPCMFrame == 0 && pFlac->currentFLACFrame.pcmFramesRemaining == 0) {
-            if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+            if (!drflac__read_header_of_next_flac_frame(pFlac)) {
                 return DRFLAC_FALSE;
             }
         } else {
@@ -5185,7 +5193,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__brute_force(drflac* pFlac, drfla
         }
 
         /* Decode the first frame in preparation for sample-exact seeking below. */
-        if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+        if (!drflac__read_header_of_next_flac_frame(pFlac)) {
             return DRFLAC_FALSE;
         }
     }
@@ -5259,7 +5267,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__brute_force(drflac* pFlac, drfla
 
     next_iteration:
         /* Grab the next frame in preparation for the next iteration. */
-        if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+        if (!drflac__read_header_of_next_flac_frame(pFlac)) {
             return DRFLAC_FALSE;
         }
     }
@@ -5317,7 +5325,7 @@ static drflac_bool32 drflac__seek_to_approximate_flac_frame_to_byte(drflac* pFla
                 break;
             }
 #else
-            if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+            if (!drflac__read_header_of_next_flac_frame(pFlac)) {
                 /* Halve the byte location and continue. */
                 targetByte = rangeLo + ((rangeHi - rangeLo)/2);
                 rangeHi = targetByte;
@@ -5524,7 +5532,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__seek_table(drflac* pFlac, drflac
         }
 
         if (drflac__seek_to_byte(&pFlac->bs, pFlac->firstFLACFramePosInBytes + pFlac->pSeekpoints[iClosestSeekpoint].flacFrameOffset)) {
-            if (drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+            if (drflac__read_header_of_next_flac_frame(pFlac)) {
                 drflac__get_pcm_frame_range_of_current_flac_frame(pFlac, &pFlac->currentPCMFrame, NULL);
 
                 if (drflac__seek_to_pcm_frame__binary_search_internal(pFlac, pcmFrameIndex, byteRangeLo, byteRangeHi)) {
@@ -5547,7 +5555,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__seek_table(drflac* pFlac, drflac
 
         /* The frame header for the first frame may not yet have been read. We need to do that if necessary. */
         if (pFlac->currentPCMFrame == 0 && pFlac->currentFLACFrame.pcmFramesRemaining == 0) {
-            if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+            if (!drflac__read_header_of_next_flac_frame(pFlac)) {
                 return DRFLAC_FALSE;
             }
         } else {
@@ -5562,7 +5570,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__seek_table(drflac* pFlac, drflac
         }
 
         /* Grab the frame the seekpoint is sitting on in preparation for the sample-exact seeking below. */
-        if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+        if (!drflac__read_header_of_next_flac_frame(pFlac)) {
             return DRFLAC_FALSE;
         }
     }
@@ -5632,7 +5640,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__seek_table(drflac* pFlac, drflac
 
     next_iteration:
         /* Grab the next frame in preparation for the next iteration. */
-        if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+        if (!drflac__read_header_of_next_flac_frame(pFlac)) {
             return DRFLAC_FALSE;
         }
     }
@@ -6865,7 +6873,7 @@ drflac_bool32 drflac_ogg__seek_to_pcm_frame(drflac* pFlac, drflac_uint64 pcmFram
         drflac_uint64 lastPCMFrameInFLACFrame = 0;
         drflac_uint64 pcmFrameCountInThisFrame;
 
-        if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+        if (!drflac__read_header_of_next_flac_frame(pFlac)) {
             return DRFLAC_FALSE;
         }
 
@@ -7377,7 +7385,7 @@ drflac* drflac_open_with_metadata_private(drflac_read_proc onRead, drflac_seek_p
                 break;
             } else {
                 if (result == DRFLAC_CRC_MISMATCH) {
-                    if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+                    if (!drflac__read_header_of_next_flac_frame(pFlac)) {
                         drflac__free_from_callbacks(pFlac, &allocationCallbacks);
                         return NULL;
                     }
@@ -10300,7 +10308,7 @@ drflac_bool32 drflac_seek_to_pcm_frame(drflac* pFlac, drflac_uint64 pcmFrameInde
             drflac_uint32 offsetAbs = (drflac_uint32)(pFlac->currentPCMFrame - pcmFrameIndex);
             drflac_uint32 currentFLACFramePCMFrameCount = pFlac->currentFLACFrame.header.blockSizeInPCMFrames;
             drflac_uint32 currentFLACFramePCMFramesConsumed = currentFLACFramePCMFrameCount - pFlac->currentFLACFrame.pcmFramesRemaining;
-            if (currentFLACFramePCMFramesConsumed > offsetAbs) {
+            if (currentFLACFramePCMFramesConsumed > offsetAbs && pFlac->currentFLACFrame.subframes[pFlac->channels - 1].pSamplesS32 != NULL) {
                 pFlac->currentFLACFrame.pcmFramesRemaining += offsetAbs;
                 pFlac->currentPCMFrame = pcmFrameIndex;
                 return DRFLAC_TRUE;
-- 
2.43.0


From 703b73fae5056eb5684099d951042fcabb6a4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 116/124] fix: reading FLAC files that end within a number did
 not end

---
 src/io/dr/dr_flac.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index 893250c..4ec3c0a 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -1952,8 +1952,8 @@ static DRFLAC_INLINE drflac_bool32 drflac__read_uint32(drflac_bs* bs, unsigned i
         drflac_uint32 bitCountLo = bitCount - bitCountHi;
         drflac_uint32 resultHi = (drflac_uint32)DRFLAC_CACHE_L1_SELECT_AND_SHIFT(bs, bitCountHi);
 
-        if (!drflac__reload_cache(bs)) {
-            return DRFLAC_FALSE;
+        if (!drflac__reload_cache(bs) || bitCountLo > DRFLAC_CACHE_L1_BITS_REMAINING(bs)) {
+            return DRFLAC_FALSE;    /* The stream ends within the number. */
         }
 
         *pResultOut = (resultHi << bitCountLo) | (drflac_uint32)DRFLAC_CACHE_L1_SELECT_AND_SHIFT(bs, bitCountLo);
@@ -2951,8 +2951,8 @@ static DRFLAC_INLINE drflac_bool32 drflac__read_rice_parts_x1(drflac_bs* bs, drf
             #endif
             } else {
                 /* Slow path. We need to fetch more data from the client. */
-                if (!drflac__reload_cache(bs)) {
-                    return DRFLAC_FALSE;
+                if (!drflac__reload_cache(bs) || riceParamPartLoBitCount > DRFLAC_CACHE_L1_BITS_REMAINING(bs)) {
+                    return DRFLAC_FALSE;    /* The stream ends within the number. */
                 }
 
                 bs_cache = bs->cache;
@@ -3060,8 +3060,8 @@ static DRFLAC_INLINE drflac_bool32 drflac__seek_rice_parts(drflac_bs* bs, drflac
             #endif
             } else {
                 /* Slow path. We need to fetch more data from the client. */
-                if (!drflac__reload_cache(bs)) {
-                    return DRFLAC_FALSE;
+                if (!drflac__reload_cache(bs) || riceParamPartLoBitCount > DRFLAC_CACHE_L1_BITS_REMAINING(bs)) {
+                    return DRFLAC_FALSE;    /* The stream ends within the number. */
                 }
 
                 bs_cache = bs->cache;
-- 
2.43.0


From e84735998f58341ccddbdc2c927c9a313275c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 117/124] fix: seeking in WAV files of unsupported formats read
 outside of tables

---
 src/io/audiofile-impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index da75244..45b98c6 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -308,7 +308,7 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_wav<T>::seek(imax offset, seek_origin origin)
 {
-    if (!f)
+    if (fmt.type == audio_sample_type::unknown)
         return false;
     return internal_generic::audio_seek(position, fmt.length, offset, origin,
                                         [&](imax target) { return drwav_seek_to_pcm_frame(
-- 
2.43.0


From 9681982c34d45e9eff9d605dda1e7f8a2bf431dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 118/124] fix: Ogg FLAC files with damaged pages were read
 outside of the page

---
 src/io/dr/dr_flac.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index 4ec3c0a..30c3713 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -6581,6 +6581,9 @@ static drflac_bool32 drflac_oggbs__goto_next_page(drflac_oggbs* oggbs, drflac_og
         }
 
 
+        /* The data of the last page is lost. */
+        oggbs->bytesRemainingInPage = 0;
+
         /* We need to read the entire page and then do a CRC check on it. If there's a CRC mismatch we need to skip this page. */
         if (drflac_oggbs__read_physical(oggbs, oggbs->pageData, pageBodySize) != pageBodySize) {
             return DRFLAC_FALSE;
-- 
2.43.0


From ee407967c5908f09d0160e7ebf23ab2116b40792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:49 +0000
Subject: [PATCH 119/124] fix: FLAC frames were read although their subframes
 could not be decoded

---
 src/io/dr/dr_flac.h | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index 30c3713..e2e8c61 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -4332,7 +4332,7 @@ static drflac_bool32 drflac__decode_samples_with_residual(drflac_bs* bs, drflac_
     }
 
     /* Validation check. */
-    if ((blockSize / (1 << partitionOrder)) <= order) {
+    if ((blockSize / (1 << partitionOrder)) <= order || (blockSize % (1 << partitionOrder)) != 0) {
         return DRFLAC_FALSE;
     }
 
@@ -4423,7 +4423,7 @@ static drflac_bool32 drflac__read_and_seek_residual(drflac_bs* bs, drflac_uint32
     }
 
     /* Validation check. */
-    if ((blockSize / (1 << partitionOrder)) <= order) {
+    if ((blockSize / (1 << partitionOrder)) <= order || (blockSize % (1 << partitionOrder)) != 0) {
         return DRFLAC_FALSE;
     }
 
@@ -4525,6 +4525,10 @@ static drflac_bool32 drflac__decode_samples__fixed(drflac_bs* bs, drflac_uint32
         {4, -6, 4, -1}
     };
 
+    if (lpcOrder > blockSize) {
+        return DRFLAC_FALSE;
+    }
+
     /* Warm up samples and coefficients. */
     for (i = 0; i < lpcOrder; ++i) {
         drflac_int32 sample;
@@ -4549,6 +4553,10 @@ static drflac_bool32 drflac__decode_samples__lpc(drflac_bs* bs, drflac_uint32 bl
     drflac_int8 lpcShift;
     drflac_int32 coefficients[32];
 
+    if (lpcOrder > blockSize) {
+        return DRFLAC_FALSE;
+    }
+
     /* Warm up samples. */
     for (i = 0; i < lpcOrder; ++i) {
         drflac_int32 sample;
@@ -4839,22 +4847,30 @@ static drflac_bool32 drflac__decode_subframe(drflac_bs* bs, drflac_frame* frame,
     {
         case DRFLAC_SUBFRAME_CONSTANT:
         {
-            drflac__decode_samples__constant(bs, frame->header.blockSizeInPCMFrames, subframeBitsPerSample, pSubframe->pSamplesS32);
+            if (!drflac__decode_samples__constant(bs, frame->header.blockSizeInPCMFrames, subframeBitsPerSample, pSubframe->pSamplesS32)) {
+                return DRFLAC_FALSE;
+            }
         } break;
 
         case DRFLAC_SUBFRAME_VERBATIM:
         {
-            drflac__decode_samples__verbatim(bs, frame->header.blockSizeInPCMFrames, subframeBitsPerSample, pSubframe->pSamplesS32);
+            if (!drflac__decode_samples__verbatim(bs, frame->header.blockSizeInPCMFrames, subframeBitsPerSample, pSubframe->pSamplesS32)) {
+                return DRFLAC_FALSE;
+            }
         } break;
 
         case DRFLAC_SUBFRAME_FIXED:
         {
-            drflac__decode_samples__fixed(bs, frame->header.blockSizeInPCMFrames, subframeBitsPerSample, pSubframe->lpcOrder, pSubframe->pSamplesS32);
+            if (!drflac__decode_samples__fixed(bs, frame->header.blockSizeInPCMFrames, subframeBitsPerSample, pSubframe->lpcOrder, pSubframe->pSamplesS32)) {
+                return DRFLAC_FALSE;
+            }
         } break;
 
         case DRFLAC_SUBFRAME_LPC:
         {
-            drflac__decode_samples__lpc(bs, frame->header.blockSizeInPCMFrames, subframeBitsPerSample, pSubframe->lpcOrder, pSubframe->pSamplesS32);
+            if (!drflac__decode_samples__lpc(bs, frame->header.blockSizeInPCMFrames, subframeBitsPerSample, pSubframe->lpcOrder, pSubframe->pSamplesS32)) {
+                return DRFLAC_FALSE;
+            }
         } break;
 
         default: return DRFLAC_FALSE;
@@ -4964,7 +4980,7 @@ static DRFLAC_INLINE drflac_uint8 drflac__get_channel_count_from_channel_assignm
     return lookup[channelAssignment];
 }
 
-static drflac_result drflac__decode_flac_frame(drflac* pFlac)
+static drflac_result drflac__decode_flac_frame_content(drflac* pFlac)
 {
     int channelCount;
     int i;
@@ -5020,6 +5036,16 @@ static drflac_result drflac__decode_flac_frame(drflac* pFlac)
     return DRFLAC_SUCCESS;
 }
 
+static drflac_result drflac__decode_flac_frame(drflac* pFlac)
+{
+    drflac_result result = drflac__decode_flac_frame_content(pFlac);
+    if (result != DRFLAC_SUCCESS) {
+        /* There are no samples that can be read. */
+        DRFLAC_ZERO_MEMORY(pFlac->currentFLACFrame.subframes, sizeof(pFlac->currentFLACFrame.subframes));
+    }
+    return result;
+}
+
 static drflac_result drflac__seek_flac_frame(drflac* pFlac)
 {
     int channelCount;
@@ -6818,7 +6844,7 @@ drflac_bool32 drflac_ogg__seek_to_pcm_frame(drflac* pFlac, drflac_uint64 pcmFram
         disregard any pages that do not begin a fresh packet.
         */
         if ((oggbs->currentPageHeader.headerType & 0x01) == 0) {    /* <-- Is it a fresh page? */
-            if (oggbs->currentPageHeader.segmentTable[0] >= 2) {
+            if (oggbs->currentPageHeader.segmentCount > 0 && oggbs->currentPageHeader.segmentTable[0] >= 2) {
                 drflac_uint8 firstBytesInPage[2];
                 firstBytesInPage[0] = oggbs->pageData[0];
                 firstBytesInPage[1] = oggbs->pageData[1];
-- 
2.43.0


From 880dfe542cd4915251986eabf92faa1a9faec5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:58 +0000
Subject: [PATCH 120/124] fix: private bits of MP3 frames were used as scale
 factor selection

---
 src/io/dr/dr_mp3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/dr/dr_mp3.h b/src/io/dr/dr_mp3.h
index 587f98c..365ed31 100644
--- a/src/io/dr/dr_mp3.h
+++ b/src/io/dr/dr_mp3.h
@@ -970,7 +970,7 @@ static int drmp3_L3_read_side_info(drmp3_bs *bs, drmp3_L3_gr_info *gr, const drm
     {
         gr_count *= 2;
         main_data_begin = drmp3_bs_get_bits(bs, 9);
-        scfsi = drmp3_bs_get_bits(bs, 7 + gr_count);
+        scfsi = drmp3_bs_get_bits(bs, 7 + gr_count) & ((1 << 2 * gr_count) - 1); /* without the private bits */
     } else
     {
         main_data_begin = drmp3_bs_get_bits(bs, 8 + gr_count) >> gr_count;
-- 
2.43.0


From a84e7667fc6a3b7e05495a95f892715455cddc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:23 +0000
Subject: [PATCH 121/124] fix: pushing an element of a small_buffer onto itself
 read freed memory

---
 include/kfr/base/small_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/small_buffer.hpp b/include/kfr/base/small_buffer.hpp
index 4633774..19d7606 100644
--- a/include/kfr/base/small_buffer.hpp
+++ b/include/kfr/base/small_buffer.hpp
@@ -106,8 +106,9 @@ public:
     const T& operator[](std::size_t i) const { return m_data[i]; }
     void push_back(const T& value)
     {
+        T copy = value; // may be an element of this buffer
         resize(m_size + 1);
-        m_data[m_size - 1] = value;
+        m_data[m_size - 1] = copy;
     }
 
 protected:
-- 
2.43.0


From d6e4ef4ab8e47e5608454630d2154c4380c1948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:23 +0000
Subject: [PATCH 122/124] fix: inline_vectors of different sizes compared equal

---
 include/kfr/base/inline_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/inline_vector.hpp b/include/kfr/base/inline_vector.hpp
index b559c2f..6bc45cd 100644
--- a/include/kfr/base/inline_vector.hpp
+++ b/include/kfr/base/inline_vector.hpp
@@ -121,7 +121,7 @@ struct inline_vector
 
     constexpr bool operator==(const inline_vector& other) const
     {
-        return std::equal(begin(), end(), other.begin());
+        return m_size == other.m_size && std::equal(begin(), end(), other.begin());
     }
     constexpr bool operator!=(const inline_vector& other) const { return !operator==(other); }
 
-- 
2.43.0


From 634f677743459ab6a20be5c87ee526ddb0f7ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 123/124] fix: slices behind the end of a univector were
 pointers outside of its data

---
 include/kfr/base/univector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index f5497a6..e3a612b 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -110,7 +110,8 @@ struct univector_base<T, Class, true>
     {
         T* data                = derived_cast<Class>(this)->data();
         const size_t this_size = derived_cast<Class>(this)->size();
-        return array_ref<T>(data + start, std::min(size, start < this_size ? this_size - start : 0));
+        start                  = std::min(start, this_size);
+        return array_ref<T>(data + start, std::min(size, this_size - start));
     }
 
     /// @brief Returns subrange of the vector.
@@ -120,7 +121,8 @@ struct univector_base<T, Class, true>
     {
         const T* data          = derived_cast<Class>(this)->data();
         const size_t this_size = derived_cast<Class>(this)->size();
-        return array_ref<const T>(data + start, std::min(size, start < this_size ? this_size - start : 0));
+        start                  = std::min(start, this_size);
+        return array_ref<const T>(data + start, std::min(size, this_size - start));
     }
 
     /// @brief Returns subrange of the vector starting from 0.
-- 
2.43.0


From 5ef0d4d3278c80facd742aac845fe43370020d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:32 +0000
Subject: [PATCH 124/124] fix: the binary search for frames of damaged FLAC
 files did not end

---
 src/io/dr/dr_flac.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index e2e8c61..89fbef4 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -5401,6 +5401,7 @@ static drflac_bool32 drflac__seek_to_pcm_frame__binary_search_internal(drflac* p
     drflac_uint64 pcmRangeHi = 0;
     drflac_uint64 lastSuccessfulSeekOffset = (drflac_uint64)-1;
     drflac_uint64 closestSeekOffsetBeforeTargetPCMFrame = byteRangeLo;
+    drflac_uint32 stepsWithoutProgress = 0;
     drflac_uint32 seekForwardThreshold = (pFlac->maxBlockSizeInPCMFrames != 0) ? pFlac->maxBlockSizeInPCMFrames*2 : 4096;
 
     targetByte = byteRangeLo + (drflac_uint64)((pcmFrameIndex - pFlac->currentPCMFrame) * pFlac->channels * pFlac->bitsPerSample/8 * DRFLAC_BINARY_SEARCH_APPROX_COMPRESSION_RATIO);
@@ -5409,6 +5410,9 @@ static drflac_bool32 drflac__seek_to_pcm_frame__binary_search_internal(drflac* p
     }
 
     for (;;) {
+        const drflac_uint64 lastByteRangeLo = byteRangeLo;
+        const drflac_uint64 lastByteRangeHi = byteRangeHi;
+
         if (drflac__seek_to_approximate_flac_frame_to_byte(pFlac, targetByte, byteRangeLo, byteRangeHi, &lastSuccessfulSeekOffset)) {
             /* We found a FLAC frame. We need to check if it contains the sample we're looking for. */
             drflac_uint64 newPCMRangeLo;
@@ -5487,6 +5491,13 @@ static drflac_bool32 drflac__seek_to_pcm_frame__binary_search_internal(drflac* p
             /* Getting here is really bad. We just recover as best we can, but moving to the first frame in the stream, and then abort. */
             break;
         }
+
+        /* The range only ever shrinks. When it stays, the frames of the file are not in order and the search would not end. */
+        if (byteRangeLo != lastByteRangeLo || byteRangeHi != lastByteRangeHi) {
+            stepsWithoutProgress = 0;
+        } else if (++stepsWithoutProgress > 2) {
+            break;
+        }
     }
 
     drflac__seek_to_first_frame(pFlac); /* <-- Try to recover. */
-- 
2.43.0

