From 40f6605d0e093b153fa67b8a9c57f22e4e9a45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 01/94] fix: keep the state of IIR cascades when a block is
 shorter than the number of sections

When a block was not longer than filters-1 samples, the warm-up consumed it
entirely, get_elements never recorded the state and end_pass restored a stale one.
---
 include/kfr/dsp/biquad.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 48b1be8..b87a282 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -314,7 +314,8 @@ KFR_INTRINSIC void begin_pass(const expression_iir<filters, T, E1, Stateless>& s
     {
         in[i] = i < size ? get_elements(self.first(), shape<1>{ i }, axis_params_v<0, 1>).front() : 0;
     }
-    internal::biquad_process(*self.state, in);
+    // if the whole block is consumed here, get_elements will have no chance to save the state
+    internal::biquad_process(*self.state, in, size <= filters - 1 ? size : static_cast<size_t>(-1));
 }
 
 template <typename T, typename E1, bool Stateless>
-- 
2.43.0


From 3b637a5bd4f15d26a1d39e94e95ee301f85b4927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 02/94] fix: make iir_filter::reset clear the filter state

filter::reset is documented to reset the internal state (and the C API exposes
it as kfr_filter_reset), but iir_filter inherited the empty implementation.
---
 include/kfr/dsp/biquad.hpp | 6 ++++++
 src/dsp/biquad.cpp         | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index b87a282..53595d7 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -510,6 +510,12 @@ public:
         : iir_filter(iir_params<T>(bq, count))
     {
     }
+
+    /// Reset internal filter state
+    void reset() override { *this = iir_filter(iir_params<T>(sections.data(), sections.size())); }
+
+private:
+    std::vector<biquad_section<T>> sections;
 };
 
 template <typename T>
diff --git a/src/dsp/biquad.cpp b/src/dsp/biquad.cpp
index e8f7ed2..bf2445d 100644
--- a/src/dsp/biquad.cpp
+++ b/src/dsp/biquad.cpp
@@ -52,7 +52,7 @@ template expression_handle<double, 1> create_iir_filter<double>(const iir_params
 #ifdef CMT_MULTI_NEEDS_GATE
 
 template <typename T>
-iir_filter<T>::iir_filter(const iir_params<T>& params)
+iir_filter<T>::iir_filter(const iir_params<T>& params) : sections(params.begin(), params.end())
 {
     CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(params));
 }
-- 
2.43.0


From d776980865c7ccbf36bca38220eca5d168d48ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 03/94] fix: keep the imaginary part in one-shot convolution of
 complex sequences

---
 src/dft/convolution-impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dft/convolution-impl.cpp b/src/dft/convolution-impl.cpp
index 5c58803..e5048b0 100644
--- a/src/dft/convolution-impl.cpp
+++ b/src/dft/convolution-impl.cpp
@@ -121,7 +121,10 @@ univector<T> convolve(const univector_ref<const T>& src1, const univector_ref<co
     src1padded = src1padded * src2padded;
     dft->execute(src1padded, src1padded, temp, true);
     const ST invsize = reciprocal<ST>(static_cast<ST>(size));
-    return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
+    if constexpr (std::is_same_v<T, complex<ST>>)
+        return truncate(src1padded, src1.size() + src2.size() - 1) * invsize;
+    else
+        return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
 }
 template univector<f32> convolve<f32>(const univector_ref<const f32>&, const univector_ref<const f32>&, bool);
 template univector<f64> convolve<f64>(const univector_ref<const f64>&, const univector_ref<const f64>&, bool);
-- 
2.43.0


From 95f6e6e8376b2b1adefe39723f475165fcb4ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 04/94] fix: let delay by one sample take its state by
 reference

---
 include/kfr/dsp/delay.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/delay.hpp b/include/kfr/dsp/delay.hpp
index 830be9d..924c899 100644
--- a/include/kfr/dsp/delay.hpp
+++ b/include/kfr/dsp/delay.hpp
@@ -132,8 +132,8 @@ struct expression_delay<1, E, stateless, STag> : expression_with_arguments<E>, e
     using T = value_type;
     using expression_with_arguments<E>::expression_with_arguments;
 
-    expression_delay(E&& e, const delay_state<T, 1, STag>& state)
-        : expression_with_arguments<E>(std::forward<E>(e)), state(state)
+    expression_delay(E&& e, state_holder<delay_state<T, 1, STag>, stateless> state)
+        : expression_with_arguments<E>(std::forward<E>(e)), state(std::move(state))
     {
     }
 
-- 
2.43.0


From c52a3819a863b09a0ecebe971b15a19fc2914d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 05/94] fix: pass the arguments of dcremove in the right order

---
 include/kfr/dsp/dcremove.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/dcremove.hpp b/include/kfr/dsp/dcremove.hpp
index 259ae41..0dfb3d9 100644
--- a/include/kfr/dsp/dcremove.hpp
+++ b/include/kfr/dsp/dcremove.hpp
@@ -34,8 +34,8 @@ namespace kfr
 template <typename E1, typename T = flt_type<expression_value_type<E1>>>
 KFR_INTRINSIC expression_iir<1, T, E1> dcremove(E1&& e1, double cutoff = 0.00025)
 {
-    const biquad_section<T> bqs[1] = { biquad_highpass(cutoff, 0.5) };
-    return expression_iir<1, T, E1>(bqs, std::forward<E1>(e1));
+    const biquad_section<T> bqs[1] = { biquad_highpass<T>(cutoff, 0.5) };
+    return expression_iir<1, T, E1>(std::forward<E1>(e1), iir_state{ iir_params{ bqs } });
 }
 
 } // namespace kfr
-- 
2.43.0


From c02201b71004e43b05d5c722cf20e40c2e29da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 06/94] fix: do not write past the end of a range that starts
 at an unaligned index

---
 include/kfr/base/expression.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 34aea3e..fb5a934 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -615,14 +615,14 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 set_elements(out, outidx, axis_params_v<OutAxis, w>, repeat<w>(val));
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             set_elements(out, outidx, axis_params_v<OutAxis, gw>, repeat<gw>(val));
@@ -635,7 +635,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 inidx[InAxis]   = std::min(x, insize - 1);
@@ -645,7 +645,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             inidx[InAxis]   = std::min(x, insize - 1);
-- 
2.43.0


From 7ed278b40516a6955030b2f6be00a8628e2bc6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 07/94] fix: keep the cursor of a moving sum of length one
 inside its buffer

---
 include/kfr/dsp/fir.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d1a8918..cbbf814 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -118,14 +118,17 @@ fir_state(Cont&&) -> fir_state<container_value_type<Cont>>;
 template <typename U, univector_tag Tag = tag_dynamic_vector>
 struct moving_sum_state
 {
-    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(Tag > 1 ? 1 : 0) {}
     univector<U, Tag> delayline;
     size_t head_cursor, tail_cursor;
 };
 template <typename U>
 struct moving_sum_state<U, tag_dynamic_vector>
 {
-    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state(size_t sum_length)
+        : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(sum_length > 1 ? 1 : 0)
+    {
+    }
     univector<U> delayline;
     size_t head_cursor, tail_cursor;
 };
-- 
2.43.0


From b565931192124e29edaa37996c6caa5bc095d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 08/94] fix: let gen_cossin continue after any number of values

---
 include/kfr/base/generators.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/generators.hpp b/include/kfr/base/generators.hpp
index bc68e0b..542d2f3 100644
--- a/include/kfr/base/generators.hpp
+++ b/include/kfr/base/generators.hpp
@@ -196,20 +196,30 @@ protected:
 };
 
 template <typename T, size_t VecWidth = internal::generator_width<T>(1)>
-struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecWidth>>
+struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecWidth>, vec<T, 2>>
 {
     static_assert(VecWidth % 2 == 0);
     generator_cossin(T start, T step)
-        : step(step), alpha(2 * sqr(sin(VecWidth / 2 * step / 2))), beta(-sin(VecWidth / 2 * step))
+        : step(step), alpha(2 * sqr(sin(VecWidth / 2 * step / 2))), beta(sin(VecWidth / 2 * step))
     {
         this->resync(start);
     }
-    KFR_MEM_INTRINSIC void sync(T start) const CMT_NOEXCEPT { this->value = init_cossin(step, start); }
+    // every value is kept with its own quadrature, so that the state can be advanced by any number of values
+    KFR_MEM_INTRINSIC void sync(T start) const CMT_NOEXCEPT
+    {
+        const vec<T, VecWidth> cs = init_cossin(step, start);
+        this->value = vec<vec<T, 2>, VecWidth>::from_flatten(interleave(cs, negodd(swap<2>(cs))));
+    }
 
     KFR_MEM_INTRINSIC void next() const CMT_NOEXCEPT
     {
-        this->value = this->value - subadd(alpha * this->value, beta * swap<2>(this->value));
+        vec<T, 2 * VecWidth> cs = flatten(this->value);
+
+        cs = cs - addsub(alpha * cs, beta * swap<2>(cs));
+
+        this->value = vec<vec<T, 2>, VecWidth>::from_flatten(cs);
     }
+    KFR_MEM_INTRINSIC vec<T, VecWidth> get_value() const { return even(flatten(this->value)); }
 
 protected:
     T step;
-- 
2.43.0


From 49eb1ea968255819fe8ead1d2e40038442b34f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 09/94] fix: ring transfers longer than the vector keep the
 most recent samples and the right cursor

---
 include/kfr/base/univector.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index 945412d..f2bb97d 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -169,8 +169,9 @@ struct univector_base<T, Class, true>
         T* data           = get_data();
         if (srcsize > size)
         {
-            src     = src + srcsize / size;
-            srcsize = srcsize % size;
+            ringbuf_step(cursor, srcsize - size);
+            src     = src + (srcsize - size);
+            srcsize = size;
         }
         const size_t fsize = size - cursor;
         // one fragment
@@ -200,7 +201,7 @@ struct univector_base<T, Class, true>
     {
         const size_t size = get_size();
         cursor            = cursor + step;
-        cursor            = cursor >= size ? cursor - size : cursor;
+        cursor            = cursor >= size ? cursor % size : cursor;
     }
     void ringbuf_read(size_t& cursor, T& value)
     {
@@ -217,15 +218,17 @@ struct univector_base<T, Class, true>
     {
         if (CMT_UNLIKELY(destsize == 0))
             return;
-        // skip redundant data
-        const size_t size = get_size();
-        const T* data     = get_data();
-        if (destsize > size)
+        const size_t size  = get_size();
+        const T* data      = get_data();
+        const size_t fsize = size - cursor;
+        // more data than the buffer holds, a full turn leaves the cursor where it is
+        while (CMT_UNLIKELY(destsize > size))
         {
-            dest     = dest + destsize / size;
-            destsize = destsize % size;
+            copy(dest, data + cursor, fsize);
+            copy(dest + fsize, data, size - fsize);
+            dest     = dest + size;
+            destsize = destsize - size;
         }
-        const size_t fsize = size - cursor;
         // one fragment
         if (CMT_LIKELY(destsize <= fsize))
         {
-- 
2.43.0


From 483af38e9831c4de754dcdfaf9efe4e46c60c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 10/94] fix: exact chirp phases in the arbitrary-length DFT
 stage

---
 src/dft/dft-impl.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index 21fe447..8c80a3e 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -211,8 +211,14 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->temp_size   = plan.temp_size;
         this->stage_size  = size;
 
-        chirp_ = render(cexp(sqr(linspace(T(1) - size, size - T(1), size * 2 - 1, true, ctrue)) *
-                             complex<T>(0, -1) * c_pi<T> / size));
+        // n^2 is reduced modulo the period (2 * size) exactly, otherwise the phase loses precision as size grows
+        univector<T> phase(size * 2 - 1);
+        for (size_t i = 0; i < phase.size(); ++i)
+        {
+            const u64 n = i < size ? size - 1 - i : i - (size - 1);
+            phase[i]    = static_cast<T>(n * n % (u64(size) * 2));
+        }
+        chirp_ = render(cexp(phase * complex<T>(0, -1) * c_pi<T> / size));
 
         ichirpp_ = render(truncate(padded(1 / slice(chirp_, 0, 2 * size - 1)), fftsize));
 
-- 
2.43.0


From 5437efe23c4a1e166324614b2c7354adb9cfbb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 11/94] fix: arbitrary-length DFT keeps its work buffers in
 temp, plans are not written during execution

---
 src/dft/dft-impl.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index 8c80a3e..7fc97cd 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -208,8 +208,9 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->repeats     = 1;
         this->recursion   = false;
         this->can_inplace = false;
-        this->temp_size   = plan.temp_size;
-        this->stage_size  = size;
+        this->temp_size = align_up(plan.temp_size, platform<>::native_cache_alignment) +
+                          sizeof(complex<T>) * fftsize * 2;
+        this->stage_size = size;
 
         // n^2 is reduced modulo the period (2 * size) exactly, otherwise the phase loses precision as size grows
         univector<T> phase(size * 2 - 1);
@@ -224,8 +225,6 @@ struct dft_arblen_stage_impl : dft_stage<T>
 
         univector<u8> temp(plan.temp_size);
         plan.execute(ichirpp_, ichirpp_, temp);
-        xp.resize(fftsize, 0);
-        xp_fft.resize(fftsize);
         invN2 = T(1) / fftsize;
     }
 
@@ -237,7 +236,14 @@ struct dft_arblen_stage_impl : dft_stage<T>
 
         auto&& chirp = apply_conj(chirp_, cbool<inverse>);
 
+        // work buffers live in temp: the plan itself is never written during execution
+        complex<T>* work =
+            ptr_cast<complex<T>>(temp + align_up(plan.temp_size, platform<>::native_cache_alignment));
+        univector<complex<T>, 0> xp     = make_univector(work, fftsize);
+        univector<complex<T>, 0> xp_fft = make_univector(work + fftsize, fftsize);
+
         xp.slice(0, n) = make_univector(in, n) * slice(chirp, n - 1);
+        xp.slice(n)    = zeros<complex<T>>();
 
         plan.execute(xp_fft.data(), xp.data(), temp);
 
@@ -256,8 +262,6 @@ struct dft_arblen_stage_impl : dft_stage<T>
     dft_plan<T> plan;
     univector<complex<T>> chirp_;
     univector<complex<T>> ichirpp_;
-    univector<complex<T>> xp;
-    univector<complex<T>> xp_fft;
 };
 
 template <typename T, size_t radix1, size_t radix2, size_t size = radix1 * radix2>
-- 
2.43.0


From c363e9dc42e3c920b0f64cbc3d4b165a72c36629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:15 +0000
Subject: [PATCH 12/94] fix: dct_plan buffers overlapped the scratch memory of
 the underlying DFT

---
 include/kfr/dft/fft.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index cfc075e..481e146 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -853,7 +853,11 @@ private:
 template <typename T>
 struct dct_plan : dft_plan<T>
 {
-    dct_plan(size_t size) : dft_plan<T>(size) { this->temp_size += sizeof(complex<T>) * size * 2; }
+    dct_plan(size_t size) : dft_plan<T>(size)
+    {
+        // [DFT stages][mirrored, mirrored_dft][DFT scratch, always the last in temp]
+        this->temp_size += buffers_size() + scratch_size();
+    }
 
     [[deprecated("cpu parameter is deprecated. Runtime dispatch is used if built with "
                  "KFR_ENABLE_MULTIARCH")]] dct_plan(cpu_t cpu, size_t size)
@@ -865,10 +869,10 @@ struct dct_plan : dft_plan<T>
     {
         const size_t size                  = this->size;
         const size_t halfSize              = size / 2;
-        univector_ref<complex<T>> mirrored = make_univector(
-            ptr_cast<complex<T>>(temp + this->temp_size - sizeof(complex<T>) * size * 2), size);
-        univector_ref<complex<T>> mirrored_dft =
-            make_univector(ptr_cast<complex<T>>(temp + this->temp_size - sizeof(complex<T>) * size), size);
+        complex<T>* buffers =
+            ptr_cast<complex<T>>(temp + this->temp_size - scratch_size() - buffers_size());
+        univector_ref<complex<T>> mirrored     = make_univector(buffers, size);
+        univector_ref<complex<T>> mirrored_dft = make_univector(buffers + size, size);
         auto t = counter() * c_pi<T> / (size * 2);
         if (!inverse)
         {
@@ -907,6 +911,16 @@ struct dct_plan : dft_plan<T>
     {
         execute(out.data(), in.data(), temp.data(), inverse);
     }
+
+private:
+    size_t buffers_size() const
+    {
+        return align_up(sizeof(complex<T>) * this->size * 2, platform<>::native_cache_alignment);
+    }
+    size_t scratch_size() const
+    {
+        return align_up(sizeof(complex<T>) * (this->size + 1), platform<>::native_cache_alignment);
+    }
 };
 
 inline namespace CMT_ARCH_NAME
-- 
2.43.0


From 35cee1a64d6b27f77e1da72a7bcf02f39b0999e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 13/94] fix: dct_plan::execute allocates temporary memory when
 none is given

---
 include/kfr/dft/fft.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index 481e146..591baf9 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -867,6 +867,10 @@ struct dct_plan : dft_plan<T>
 
     KFR_MEM_INTRINSIC void execute(T* out, const T* in, u8* temp, bool inverse = false) const
     {
+        if (temp == nullptr)
+        {
+            return call_with_temp(this->temp_size, [&](u8* allocated) { execute(out, in, allocated, inverse); });
+        }
         const size_t size                  = this->size;
         const size_t halfSize              = size / 2;
         complex<T>* buffers =
-- 
2.43.0


From 2aade53b0fd598409ecc20a3407cc42920c2527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 14/94] fix: dft_plan_md_real::execute(.., bool inverse)
 checked the direction the wrong way round

---
 include/kfr/dft/fft.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index 591baf9..3336518 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -719,12 +719,12 @@ struct dft_plan_md_real
     }
     void execute(complex<T>* out, const T* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(cfalse, out, in, temp);
     }
     void execute(T* out, const complex<T>* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(ctrue, out, in, temp);
     }
 
-- 
2.43.0


From db1fcfb993da7afa21a03dffa114494adc4dab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 15/94] fix: last position counted from the end in tensor
 ranges with a negative step

---
 include/kfr/base/tensor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index a0fdacc..1319aa4 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -431,8 +431,11 @@ public:
         }
         else
         {
-            tstart = iidx.start ? *iidx.start + 1 : tsize;
-            tstop  = iidx.stop ? *iidx.stop + 1 : 0;
+            // resolve negative positions before turning them into exclusive bounds
+            const auto resolve = [tsize](signed_index_t pos) -> signed_index_t
+            { return pos < 0 ? std::max(tsize + pos, signed_index_t(-1)) : pos; };
+            tstart = iidx.start ? resolve(*iidx.start) + 1 : tsize;
+            tstop  = iidx.stop ? resolve(*iidx.stop) + 1 : 0;
         }
         tstart = tstart < 0 ? tsize + tstart : tstart;
         tstart = std::max(std::min(tstart, tsize), signed_index_t(0));
-- 
2.43.0


From b276f4c0b83d3dfc3506fd4e94612e3cb6101d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 16/94] fix: tensor self-assignment released the storage before
 sharing it

---
 include/kfr/base/tensor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 1319aa4..99ed703 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -361,14 +361,17 @@ public:
 #if defined(CMT_COMPILER_IS_MSVC) || true
     tensor& operator=(const tensor& src) &
     {
+        // src may be this tensor or live in the storage this tensor keeps alive
+        tensor tmp(src);
         this->~tensor();
-        new (this) tensor(src);
+        new (this) tensor(std::move(tmp));
         return *this;
     }
     tensor& operator=(tensor&& src) &
     {
+        tensor tmp(std::move(src));
         this->~tensor();
-        new (this) tensor(std::move(src));
+        new (this) tensor(std::move(tmp));
         return *this;
     }
 #else
-- 
2.43.0


From 246a3f003d36c9ca94cd2257a43f1819c8e90ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 17/94] fix: assignment of a non-const tensor shares its
 storage like any other tensor assignment

---
 include/kfr/base/tensor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 99ed703..a6a71fa 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -379,6 +379,9 @@ public:
     tensor& operator=(tensor&& src) &      = default;
 #endif
 
+    // prevents the expression overload from being chosen for non-const lvalues
+    tensor& operator=(tensor& src) & { return operator=(static_cast<const tensor&>(src)); }
+
     KFR_MEM_INTRINSIC const tensor& operator=(const tensor& src) const&
     {
         assign(src);
-- 
2.43.0


From 5fee22ea7bb04fc654822da752d5eaf4fb1f6ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 18/94] fix: shape::ge and shape::le compile for more than one
 dimension

---
 include/kfr/base/shape.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/kfr/base/shape.hpp b/include/kfr/base/shape.hpp
index 2a95757..22d032c 100644
--- a/include/kfr/base/shape.hpp
+++ b/include/kfr/base/shape.hpp
@@ -135,14 +135,12 @@ struct shape : static_array_base<index_t, csizeseq_t<Dims>>
 
     bool ge(const shape& other) const
     {
-        if constexpr (Dims == 1)
-        {
-            return this->front() >= other.front();
-        }
-        else
+        for (index_t i = 0; i < Dims; ++i)
         {
-            return all(**this >= *other);
+            if (!(this->operator[](i) >= other[i]))
+                return false;
         }
+        return true;
     }
 
     index_t trailing_zeros() const
@@ -157,14 +155,12 @@ struct shape : static_array_base<index_t, csizeseq_t<Dims>>
 
     bool le(const shape& other) const
     {
-        if constexpr (Dims == 1)
-        {
-            return this->front() <= other.front();
-        }
-        else
+        for (index_t i = 0; i < Dims; ++i)
         {
-            return all(**this <= *other);
+            if (!(this->operator[](i) <= other[i]))
+                return false;
         }
+        return true;
     }
 
     constexpr shape add(index_t value) const
-- 
2.43.0


From cc37ac9153fd9486801e2861fd13956be875049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 19/94] fix: concatenate and reshape took the shape of an
 argument already moved from

---
 include/kfr/base/basic_expressions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 51be798..3fda922 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -546,7 +546,7 @@ struct expression_reshape : public expression_with_arguments<Arg>
     shape<OutDims> out_shape;
 
     KFR_MEM_INTRINSIC expression_reshape(Arg&& arg, const shape<OutDims>& out_shape)
-        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) }, in_shape(ArgTraits::get_shape(arg)),
+        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) }, in_shape(ArgTraits::get_shape(this->first())),
           out_shape(out_shape)
     {
     }
@@ -780,7 +780,7 @@ struct expression_concatenate : public expression_with_arguments<Arg1, Arg2>
 
     KFR_MEM_INTRINSIC expression_concatenate(Arg1&& arg1, Arg2&& arg2)
         : expression_with_arguments<Arg1, Arg2>{ std::forward<Arg1>(arg1), std::forward<Arg2>(arg2) },
-          size1(expression_traits<Arg1>::get_shape(arg1))
+          size1(expression_traits<Arg1>::get_shape(this->first()))
     {
     }
 };
-- 
2.43.0


From e4d29f4d4476c7a784f55706aeda4aa0d4737ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 20/94] fix: concatenation with an empty expression lost the
 other one

---
 include/kfr/base/basic_expressions.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 3fda922..ada673d 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -806,8 +806,12 @@ struct expression_traits<expression_concatenate<Arg1, Arg2, ConcatAxis>> : expre
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape(
         const expression_concatenate<Arg1, Arg2, ConcatAxis>& self)
     {
-        return concat_shape(ArgTraits1::get_shape(std::get<0>(self.args)),
-                            ArgTraits2::get_shape(std::get<1>(self.args)));
+        // sizes are known here, so zero is an empty axis and not an undefined one
+        const shape<dims> sh1 = ArgTraits1::get_shape(std::get<0>(self.args));
+        const shape<dims> sh2 = ArgTraits2::get_shape(std::get<1>(self.args));
+        shape<dims> result    = min(sh1, sh2);
+        result[ConcatAxis]    = add_shape(sh1, sh2)[ConcatAxis];
+        return result;
     }
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape()
     {
-- 
2.43.0


From 4c8f7e175ff6065176bedf16e69ae2477bd3270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 21/94] fix: padded() of a multidimensional expression read
 outside of its argument

---
 include/kfr/base/basic_expressions.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index ada673d..aab4f54 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -381,11 +381,20 @@ template <typename Arg, index_t Axis, size_t N, typename Traits = expression_tra
 KFR_INTRINSIC vec<T, N> get_elements(const expression_padded<Arg>& self, const shape<Traits::dims>& index,
                                      const axis_params<Axis, N>& sh)
 {
-    if (index.ge(self.input_shape))
+    shape<Traits::dims> last = index;
+    last[Axis] += N - 1;
+    bool outside = false;
+    bool inside  = true;
+    for (index_t i = 0; i < Traits::dims; ++i)
+    {
+        outside = outside || index[i] >= self.input_shape[i];
+        inside  = inside && last[i] < self.input_shape[i];
+    }
+    if (outside)
     {
         return self.fill_value;
     }
-    else if (CMT_LIKELY(index.add(N).le(self.input_shape)))
+    else if (CMT_LIKELY(inside))
     {
         return get_elements(self.first(), index, sh);
     }
@@ -394,8 +403,9 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_padded<Arg>& self, const s
         vec<T, N> x = self.fill_value;
         for (size_t i = 0; i < N; i++)
         {
-            shape ish = index.add(i);
-            if (ish.back() < self.input_shape.back())
+            shape<Traits::dims> ish = index;
+            ish[Axis] += i;
+            if (ish[Axis] < self.input_shape[Axis])
                 x[i] = get_elements(self.first(), ish, axis_params_v<Axis, 1>).front();
         }
         return x;
-- 
2.43.0


From 415609df3b2afed4d56add2cbb504e842bf28172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 22/94] fix: reverse() of a multidimensional expression was off
 by the vector width on the other axes

---
 include/kfr/base/basic_expressions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index aab4f54..e76be97 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -460,7 +460,9 @@ template <typename Arg, index_t Axis, size_t N, typename Traits = expression_tra
 KFR_INTRINSIC vec<T, N> get_elements(const expression_reverse<Arg>& self, const shape<Traits::dims>& index,
                                      const axis_params<Axis, N>& sh)
 {
-    return reverse(get_elements(self.first(), self.input_shape.sub(index).sub(shape<Traits::dims>(N)), sh));
+    shape<Traits::dims> count(1);
+    count[Axis] = N;
+    return reverse(get_elements(self.first(), self.input_shape.sub(index).sub(count), sh));
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From b8c32cf88960e55b0fd56c073524363408c83043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 23/94] fix: writing through reshape() across a row wrote to
 the wrong elements

---
 include/kfr/base/basic_expressions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index e76be97..fc3ee5e 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -667,11 +667,13 @@ KFR_INTRINSIC void set_elements(expression_reshape<Arg, outdims>& self, const sh
 
         bool done = false;
 
+        const bool single_axis = diff_idx.sum() == N - 1;
+
         cforeach(cvalseq_t<index_t, indims, 0>{},
                  [&](auto n) CMT_INLINE_LAMBDA
                  {
                      constexpr index_t axis = val_of<decltype(n)>({});
-                     if (!done && diff_idx[axis] == N - 1)
+                     if (!done && single_axis && diff_idx[axis] == N - 1)
                      {
                          set_elements(self.first(), first_idx, axis_params<axis, N>{}, value);
                          done = true;
-- 
2.43.0


From 40f5e3cf3b3f765bc8574087651d26c72fb5dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 24/94] fix: linspace of one element with endpoint was NaN

---
 include/kfr/base/basic_expressions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index fc3ee5e..9282904 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -712,7 +712,8 @@ struct expression_linspace
     T invsize;
 
     expression_linspace(T start, T stop, size_t size, bool endpoint = false)
-        : start(start), stop(stop), size(size), invsize(T(1.0) / T(endpoint ? size - 1 : size))
+        : start(start), stop(stop), size(size), endpoint(endpoint),
+          invsize(T(1.0) / T(endpoint && size > 1 ? size - 1 : size))
     {
     }
 
-- 
2.43.0


From 684b308119672c7d489f1ed88cd85f3a5b453f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 25/94] fix: dimensions() repeated the first element instead of
 reading along the axis

---
 include/kfr/base/basic_expressions.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 9282904..269d2e8 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -1070,13 +1070,14 @@ struct expression_dimensions : public expression_with_traits<E>
                                                          axis_params<VecAxis, N> sh)
     {
         shape<in_dims> inindex = index.template trim<in_dims>();
-        if constexpr (VecAxis >= in_dims)
+        // new dimensions are added in front of the existing ones
+        if constexpr (VecAxis < Dims - in_dims)
         {
             return repeat<N>(get_elements(self.first(), inindex, axis_params_v<0, 1>));
         }
         else
         {
-            return get_elements(self.first(), inindex, sh);
+            return get_elements(self.first(), inindex, axis_params_v<VecAxis - (Dims - in_dims), N>);
         }
     }
 };
-- 
2.43.0


From 84fa0a9361e7f9836be3e8e7c4937365814e52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 26/94] fix: lambda expressions follow the axis they are
 evaluated along

---
 include/kfr/base/basic_expressions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 269d2e8..e4717bf 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -316,7 +316,7 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_lambda<T, Dims, Fn, Rnd>&
         for (index_t i = 0; i < N; ++i)
         {
             result[i] = self.fn(cur_index);
-            ++cur_index.back();
+            ++cur_index[Axis];
         }
         return result;
     }
-- 
2.43.0


From e96927d7b89c78d0578e195932efd735b10c13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 27/94] fix: slice() starting past the end of its argument had
 a huge size

---
 include/kfr/base/basic_expressions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index e4717bf..ad2b13d 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -163,7 +163,8 @@ struct expression_traits<expression_slice<Arg>> : expression_traits_defaults
 
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape(const expression_slice<Arg>& self)
     {
-        return min(sub_shape(ArgTraits::get_shape(self.first()), self.start), self.size);
+        const shape<dims> argshape = ArgTraits::get_shape(self.first());
+        return min(sub_shape(argshape, min(argshape, self.start)), self.size);
     }
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape() { return shape<dims>(undefined_size); }
 };
-- 
2.43.0


From a878f96ef42f4784ec12d671143e20a906cd3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 28/94] fix: expression handle never destroyed the expression
 it owns

---
 include/kfr/base/handle.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 7ecd09a..0dddb50 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -172,8 +172,13 @@ template <typename E>
 KFR_INTRINSIC std::shared_ptr<expression_resource> make_resource(E&& e)
 {
     using T = expression_resource_impl<std::decay_t<E>>;
-    return std::static_pointer_cast<expression_resource>(std::shared_ptr<T>(
-        new (aligned_allocate<T>()) T(std::move(e)), [](T* pi) { aligned_deallocate<T>(pi); }));
+    return std::static_pointer_cast<expression_resource>(
+        std::shared_ptr<T>(new (aligned_allocate<T>()) T(std::move(e)),
+                           [](T* pi)
+                           {
+                               pi->~T();
+                               aligned_deallocate<T>(pi);
+                           }));
 }
 
 template <typename T, index_t Dims = 1>
-- 
2.43.0


From 427442765b2f6051a3b31c00cf811322adaa7acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 29/94] fix: to_handle of a multidimensional lvalue compiles

---
 include/kfr/base/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 0dddb50..fd2ee0e 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -297,7 +297,7 @@ KFR_INTRINSIC expression_vtable<T, Dims>* make_expression_vtable()
 template <typename E, typename T = expression_value_type<E>, index_t Dims = expression_dims<E>>
 KFR_INTRINSIC expression_handle<T, Dims> to_handle(E& expr)
 {
-    return expression_handle<T>(std::addressof(expr), internal::make_expression_vtable<T, Dims, E>());
+    return expression_handle<T, Dims>(std::addressof(expr), internal::make_expression_vtable<T, Dims, E>());
 }
 
 /** @brief Converts the given expression into an opaque object.
-- 
2.43.0


From 799b78853f5488eba0eb64327f020f80f32312fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 30/94] fix: expression handle can be written to

---
 include/kfr/base/handle.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index fd2ee0e..2458f56 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -269,7 +269,8 @@ KFR_INTRINSIC void set_elements(const expression_handle<T, NDims>& self, const s
     }
     else
     {
-        self.vtable->fn_set_elements[Axis][Nsize](self.instance, index, &value.front());
+        portable_vec<T, N> tmp = value;
+        self.vtable->fn_set_elements[Axis][Nsize](self.instance, index, tmp.elem);
     }
 }
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From 5b4bd84044c241d8e7ce70acfee8c4f09dc1ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 31/94] fix: broadcasting was decided by the last axis whatever
 axis is vectorised

---
 include/kfr/base/expression.hpp | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index fb5a934..d591814 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -550,29 +550,38 @@ KFR_MEM_INTRINSIC vec<typename Traits::value_type, N> get_arg(const expression_f
     }
     else
     {
-        constexpr size_t NewVecAxis = Traits::dims - (Dims - VecAxis);
-        auto indices                = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
-        constexpr index_t last_dim  = Traits::get_shape().back();
-        if constexpr (last_dim != undefined_size)
+        auto indices = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
+        if constexpr (Dims - VecAxis > Traits::dims)
         {
-            constexpr index_t last_dim_pot = prev_poweroftwo(last_dim);
-            return repeat<N / std::min(last_dim_pot, static_cast<index_t>(N))>(
-                get_elements(std::get<idx>(self.args), indices,
-                             axis_params<NewVecAxis, std::min(last_dim_pot, static_cast<index_t>(N))>{}));
+            // this argument has no such axis, its value is the same for all N elements
+            return repeat<N>(
+                get_elements(std::get<idx>(self.args), indices, axis_params<Traits::dims - 1, 1>{}));
         }
         else
         {
-            if constexpr (sizeof...(Args) > 1 && N > 1)
+            constexpr size_t NewVecAxis = Traits::dims - (Dims - VecAxis);
+            constexpr index_t axis_dim  = Traits::get_shape()[NewVecAxis];
+            if constexpr (axis_dim != undefined_size)
             {
-                if (CMT_UNLIKELY(self.masks[idx].back() == 0))
-                    return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, 1>{})
-                        .front();
-                else
-                    return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, N>{});
+                constexpr index_t axis_dim_pot = prev_poweroftwo(axis_dim);
+                return repeat<N / std::min(axis_dim_pot, static_cast<index_t>(N))>(
+                    get_elements(std::get<idx>(self.args), indices,
+                                 axis_params<NewVecAxis, std::min(axis_dim_pot, static_cast<index_t>(N))>{}));
             }
             else
             {
-                return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, N>{});
+                if constexpr (sizeof...(Args) > 1 && N > 1)
+                {
+                    if (CMT_UNLIKELY(self.masks[idx][maximum_dims - (Dims - VecAxis)] == 0))
+                        return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, 1>{})
+                            .front();
+                    else
+                        return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, N>{});
+                }
+                else
+                {
+                    return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, N>{});
+                }
             }
         }
     }
-- 
2.43.0


From 5060b2edb3e483be180704bbbec35ba8be778b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 32/94] fix: writing through slice() and cast(), and
 type-erasing them

---
 include/kfr/base/basic_expressions.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index ad2b13d..6e3dd78 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -197,7 +197,7 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_slice<Arg>& self, const sh
 
 template <typename Arg, index_t NDims, index_t Axis, size_t N, enable_if_output_expression<Arg>* = nullptr,
           typename T = typename expression_traits<expression_slice<Arg>>::value_type>
-KFR_INTRINSIC void set_elements(const expression_slice<Arg>& self, const shape<NDims>& index,
+KFR_INTRINSIC void set_elements(expression_slice<Arg>& self, const shape<NDims>& index,
                                 const axis_params<Axis, N>& sh, const identity<vec<T, N>>& value)
 {
     set_elements(self.first(), index.add(self.start), sh, value);
@@ -250,8 +250,9 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_cast<T, Arg>& self, const
     return static_cast<vec<T, N>>(get_elements(self.first(), index, sh));
 }
 
-template <typename T, typename Arg, index_t NDims, index_t Axis, size_t N>
-KFR_INTRINSIC void set_elements(const expression_cast<T, Arg>& self, const shape<NDims>& index,
+template <typename T, typename Arg, index_t NDims, index_t Axis, size_t N,
+          enable_if_output_expression<Arg>* = nullptr>
+KFR_INTRINSIC void set_elements(expression_cast<T, Arg>& self, const shape<NDims>& index,
                                 const axis_params<Axis, N>& sh, const identity<vec<T, N>>& value)
 {
     set_elements(self.first(), index, sh, value);
-- 
2.43.0


From fcbf832c30e42181e9c96da9898673ca60ad0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 33/94] fix: substitution past a type-erased argument left a
 dangling handle

---
 include/kfr/base/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 2458f56..431d02a 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -402,7 +402,7 @@ KFR_INTRINSIC bool substitute_helper(expression_with_arguments<Args...>& expr,
                                      expression_handle<T, Dims> new_handle, csize_t<Key>,
                                      csizes_t<indices...>)
 {
-    return (substitute(std::get<indices>(expr.args), std::move(new_handle), csize_t<Key>()) || ...);
+    return (substitute(std::get<indices>(expr.args), new_handle, csize_t<Key>()) || ...);
 }
 
 template <typename Expression, typename T, index_t Dims, size_t Key>
-- 
2.43.0


From 4169d301974885b44a0c836c24845038816aaa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 34/94] fix: histogram of integers counted values near the
 limits of the type in the wrong cell

---
 include/kfr/base/reduce.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/reduce.hpp b/include/kfr/base/reduce.hpp
index 67ba03a..1dbd514 100644
--- a/include/kfr/base/reduce.hpp
+++ b/include/kfr/base/reduce.hpp
@@ -193,8 +193,12 @@ struct histogram_data
         }
         else
         {
-            const vec<T, N> x = 1 + value;
-            indices           = cast<uint64_t>(clamp(x, T(0), T(size() + 1)));
+            // Neither 1 + value nor size() + 1 is necessarily representable in T
+            for (size_t i = 0; i < N; ++i)
+            {
+                const T v  = value[i];
+                indices[i] = v < T(0) ? 0 : static_cast<u64>(v) >= size() ? size() + 1 : 1 + static_cast<u64>(v);
+            }
         }
         CMT_LOOP_UNROLL
         for (size_t i = 0; i < N; ++i)
-- 
2.43.0


From aa071311d087223f4ec8d1bf9b0e3af4a4ef7174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 35/94] fix: havg of negative integers divided as unsigned

---
 include/kfr/simd/horizontal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/horizontal.hpp b/include/kfr/simd/horizontal.hpp
index 38d7e43..bfac66e 100644
--- a/include/kfr/simd/horizontal.hpp
+++ b/include/kfr/simd/horizontal.hpp
@@ -203,7 +203,7 @@ KFR_FN(hdot)
 template <typename T, size_t N>
 KFR_INTRINSIC T havg(const vec<T, N>& value)
 {
-    return hadd(value) / N;
+    return hadd(value) / static_cast<T>(N);
 }
 KFR_FN(havg)
 
-- 
2.43.0


From ed690611c3a0df4e33994d3144dcf88027d90e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 36/94] fix: concatenate could not be used where its static
 shape is needed (reductions)

---
 include/kfr/base/basic_expressions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 6e3dd78..e468e3f 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -812,7 +812,7 @@ struct expression_traits<expression_concatenate<Arg1, Arg2, ConcatAxis>> : expre
     constexpr static size_t dims        = ArgTraits1::dims;
     constexpr static bool random_access = ArgTraits1::random_access && ArgTraits2::random_access;
 
-    KFR_INTRINSIC static shape<dims> concat_shape(const shape<dims>& sh1, const shape<dims>& sh2)
+    KFR_INTRINSIC constexpr static shape<dims> concat_shape(const shape<dims>& sh1, const shape<dims>& sh2)
     {
         shape<dims> result = min(sh1, sh2);
         shape<dims> sum    = add_shape_undef(sh1, sh2);
-- 
2.43.0


From 858b33e53aa6e49ec458b8fdedd33dbb8469d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 37/94] fix: the cycle table of matrix_transpose was allocated
 with new[] and freed with delete

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index edace25..c89585d 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -329,7 +329,7 @@ public:
     ~matrix_cycles()
     {
         if (data != on_stack)
-            delete data;
+            delete[] data;
     }
 
     size_t next_cycle_origin(size_t origin = 0)
-- 
2.43.0


From 0fcfe4e25ccf0d1331457e38af2805cf68dbacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 38/94] fix: matrix_transpose divided by zero on a matrix
 without rows or columns

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index c89585d..4a68168 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -600,7 +600,7 @@ void matrix_transpose(vec<T, N>* out, const vec<T, N>* in, shape<Dims> tshape)
     {
         const index_t rows = tshape[0];
         const index_t cols = tshape[1];
-        if (cols == 1 || rows == 1)
+        if (cols <= 1 || rows <= 1)
         {
             return internal::matrix_transpose_noop(out, in, tshape.product());
         }
-- 
2.43.0


From 0d7511aff85f284f279f4585783297a0537cefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 39/94] fix: matrix_transpose of elements padded in memory
 (vectors of 3, 5, ...)

---
 include/kfr/base/transpose.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index 4a68168..2d8ea26 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -645,7 +645,8 @@ template <typename T, index_t Dims>
 void matrix_transpose(T* out, const T* in, shape<Dims> shape)
 {
     using U                = typename compound_type_traits<T>::deep_subtype;
-    constexpr size_t width = compound_type_traits<T>::deep_width;
+    // Elements may be padded in memory (vec<float, 3>), so this is not necessarily deep_width
+    constexpr size_t width = sizeof(T) / sizeof(U);
     return internal::matrix_transpose<U, width, Dims>(ptr_cast<vec<U, width>>(out),
                                                       ptr_cast<vec<U, width>>(in), shape);
 }
-- 
2.43.0


From 38e2d2a8576a69b3a774d9f5f0e498e8b7954706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 40/94] fix: gen_random_uniform compiles, and is not a range
 from zero to zero

---
 include/kfr/base/random.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 72295a8..00d708c 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -154,7 +154,7 @@ struct expression_random_uniform : expression_traits_defaults
     friend KFR_INTRINSIC vec<T, N> get_elements(const expression_random_uniform& self, shape<Dims>,
                                                 axis_params<VecAxis, N>)
     {
-        return random_uniform<N, T>(*self.state);
+        return random_uniform<T, N>(*self.state);
     }
 };
 
@@ -218,7 +218,7 @@ KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform(const random_
  * Use std::ref(gen) to use this overload.
  */
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
+KFR_FUNCTION expression_random_uniform<T, Dims, true> gen_random_uniform(
     std::reference_wrapper<random_state> state)
 {
     return { {}, state };
@@ -227,9 +227,9 @@ KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
 #ifndef KFR_DISABLE_READCYCLECOUNTER
 /// @brief Returns expression that produces uniform pseudorandom values using cycle counter entropy.
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims> gen_random_uniform()
+KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform()
 {
-    return expression_random_uniform<T, Dims>{ random_init() };
+    return { {}, random_init() };
 }
 #endif
 
-- 
2.43.0


From d7bcb4bf584f2ac94bb595c5b2c356dd887f142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 41/94] fix: random_range of integers ignored min, was signed
 by accident and did not compile for most types

---
 include/kfr/base/random.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 00d708c..8c08b53 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -104,11 +104,24 @@ KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 template <size_t N, typename T, KFR_ENABLE_IF(!is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    using big_type = findinttype<sqr(std::numeric_limits<T>::min()), sqr(std::numeric_limits<T>::max())>;
+    using U = std::make_unsigned_t<T>;
 
-    vec<T, N> u                = random_uniform<T, N>(state);
-    const vec<big_type, N> tmp = u;
-    return (tmp * (max - min) + min) >> typebits<T>::bits;
+    const u64 range     = static_cast<U>(static_cast<U>(max) - static_cast<U>(min));
+    const vec<u64, N> u = cast<u64>(random_uniform<U, N>(state));
+    vec<u64, N> scaled; // u * range / 2^bits
+    if constexpr (sizeof(T) < sizeof(u64))
+    {
+        scaled = (u * range) >> typebits<T>::bits;
+    }
+    else
+    {
+        // upper half of the 128-bit product
+        constexpr u64 mask = 0xFFFFFFFFull;
+        const vec<u64, N> t = (u & mask) * (range >> 32) + (((u & mask) * (range & mask)) >> 32);
+        const vec<u64, N> s = (u >> 32) * (range & mask) + (t & mask);
+        scaled              = (u >> 32) * (range >> 32) + (t >> 32) + (s >> 32);
+    }
+    return cast<T>(scaled + static_cast<u64>(min));
 }
 
 /**
-- 
2.43.0


From b6750e831352ab495716478c17ae12452184e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 42/94] fix: random_range of reals could return max because of
 rounding

---
 include/kfr/base/random.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 8c08b53..4ec5d7f 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -86,7 +86,9 @@ KFR_INTRINSIC vec<T, N> random_uniform(random_state& state)
 template <size_t N, typename T, KFR_ENABLE_IF(is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    return mix(random_uniform<T, N>(state), min, max);
+    const vec<T, N> value = mix(random_uniform<T, N>(state), min, max);
+    // max is excluded but can be reached by rounding
+    return min < max ? select(value < max, value, min) : value;
 }
 
 /**
-- 
2.43.0


From 743bffb7ed544fbfa1b2aea57786131684ecca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 43/94] fix: random_normal returned infinity when the uniform
 value was zero

---
 include/kfr/base/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 4ec5d7f..7cecfed 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -147,7 +147,7 @@ KFR_INTRINSIC vec<T, N> random_normal(random_state& state, T mu, T sigma)
 
     vec<T, M> u = random_uniform<T, M>(state);
 
-    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(even(u)));
+    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(max(even(u), std::numeric_limits<T>::min())));
     vec<T, M> z       = dup(mag) * cossin(c_pi<T, 2> * dupodd(u)) + mu;
     return slice<0, N>(z);
 }
-- 
2.43.0


From b0e6e09cf79482a359ed00328f1b40801085c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 44/94] fix: audio_writer_wav::write passed the sample count as
 frame count when no conversion is needed

---
 src/io/audiofile-impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 4f54076..aa3d1f9 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -150,7 +150,7 @@ size_t audio_writer_wav<T>::write(const T* data, size_t size)
         return 0;
     if (fmt.type == audio_sample_traits<T>::type)
     {
-        const size_t sz = drwav_write_pcm_frames_le(f.get(), size, data);
+        const size_t sz = drwav_write_pcm_frames_le(f.get(), size / fmt.channels, data);
         fmt.length += sz;
         return sz * fmt.channels;
     }
-- 
2.43.0


From 7ce98ce7eaf9a3c9f9b806b3afd59396e461e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 45/94] fix: audio readers: seek refuses targets outside the
 file, reaches the end and updates the position

---
 src/io/audiofile-impl.cpp | 58 +++++++++++++++++++--------------------
 src/io/dr/dr_wav.h        |  4 +--
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index aa3d1f9..e5bdfa4 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -119,6 +119,16 @@ void mp3_file_deleter::operator()(mp3_file* f)
     delete f;
 }
 
+/// Finds the frame that a seek request refers to. Returns false if it is outside of the file
+static bool seek_target(imax& target, imax position, imax length, imax offset, seek_origin origin)
+{
+    const imax base = origin == seek_origin::begin ? 0 : origin == seek_origin::end ? length : position;
+    if (offset < -base || offset > length - base)
+        return false;
+    target = base + offset;
+    return true;
+}
+
 } // namespace internal_generic
 
 template <typename T>
@@ -264,16 +274,12 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_wav<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    imax target;
+    if (!internal_generic::seek_target(target, position, fmt.length, offset, origin) ||
+        !drwav_seek_to_pcm_frame(f.get(), static_cast<drwav_uint64>(target)))
+        return false;
+    position = target;
+    return true;
 }
 
 template struct audio_reader_wav<i16>;
@@ -324,16 +330,12 @@ size_t audio_reader_flac<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_flac<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    imax target;
+    if (!internal_generic::seek_target(target, position, fmt.length, offset, origin) ||
+        !drflac_seek_to_pcm_frame(f.get(), static_cast<drflac_uint64>(target)))
+        return false;
+    position = target;
+    return true;
 }
 
 template struct audio_reader_flac<i16>;
@@ -387,16 +389,12 @@ size_t audio_reader_mp3<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_mp3<T>::seek(imax offset, seek_origin origin)
 {
-    switch (origin)
-    {
-    case seek_origin::current:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
-    case seek_origin::begin:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
-    case seek_origin::end:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
-    }
-    return false;
+    imax target;
+    if (!internal_generic::seek_target(target, position, fmt.length, offset, origin) ||
+        !drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(target)))
+        return false;
+    position = target;
+    return true;
 }
 
 template struct audio_reader_mp3<i16>;
diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index 44fc774..d3250f4 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -2940,8 +2940,8 @@ drwav_bool32 drwav_seek_to_pcm_frame(drwav* pWav, drwav_uint64 targetFrameIndex)
     }
 
     /* Make sure the sample is clamped. */
-    if (targetFrameIndex >= pWav->totalPCMFrameCount) {
-        targetFrameIndex  = pWav->totalPCMFrameCount - 1;
+    if (targetFrameIndex > pWav->totalPCMFrameCount) {
+        targetFrameIndex = pWav->totalPCMFrameCount;
     }
 
     /*
-- 
2.43.0


From 8397a7d1934288815d982df6fae9a13852c6123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 46/94] fix: audio_reader_flac: null dereference when the file
 cannot be opened

---
 src/io/audiofile-impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index e5bdfa4..ba3a264 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -295,6 +295,12 @@ audio_reader_flac<T>::audio_reader_flac(std::shared_ptr<abstract_reader<>>&& rea
     f.reset(reinterpret_cast<internal_generic::flac_file*>(drflac_open(
         (drflac_read_proc)&internal_generic::drflac_reader_read_proc,
         (drflac_seek_proc)&internal_generic::drflac_reader_seek_proc, this->reader.get(), nullptr)));
+    if (!f)
+    {
+        fmt.channels = 0;
+        fmt.type     = audio_sample_type::unknown;
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(f->totalPCMFrameCount);
-- 
2.43.0


From fc05f6c567f765d434abb411f3657d8a6359d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 47/94] fix: 8-bit samples are unsigned in WAV files

---
 src/io/audiofile-impl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index ba3a264..97abdec 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -119,6 +119,13 @@ void mp3_file_deleter::operator()(mp3_file* f)
     delete f;
 }
 
+/// 8-bit samples are unsigned in WAV files
+static void flip_sign_bit(uint8_t* data, size_t size)
+{
+    for (size_t i = 0; i < size; ++i)
+        data[i] ^= 0x80;
+}
+
 /// Finds the frame that a seek request refers to. Returns false if it is outside of the file
 static bool seek_target(imax& target, imax position, imax length, imax offset, seek_origin origin)
 {
@@ -168,6 +175,8 @@ size_t audio_writer_wav<T>::write(const T* data, size_t size)
     {
         univector<uint8_t> native(size * audio_sample_sizeof(fmt.type));
         convert(native.data(), fmt.type, data, size);
+        if (fmt.type == audio_sample_type::i8)
+            internal_generic::flip_sign_bit(native.data(), size);
         const size_t sz = drwav_write_pcm_frames_le(f.get(), size / fmt.channels, native.data());
         fmt.length += sz;
         return sz * fmt.channels;
@@ -266,6 +275,8 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
         univector<uint8_t> native(size * audio_sample_sizeof(fmt.type));
         const size_t sz = drwav_read_pcm_frames(f.get(), size / fmt.channels, native.data());
         position += sz;
+        if (fmt.type == audio_sample_type::i8)
+            internal_generic::flip_sign_bit(native.data(), sz * fmt.channels);
         convert(data, native.data(), fmt.type, sz * fmt.channels);
         return sz * fmt.channels;
     }
-- 
2.43.0


From ddebe15a3b65efd5b140fecac21d32e2003ab570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 48/94] fix: abstract_reader::read(size) returned unread
 samples; read_channels divided by zero for unreadable files

---
 include/kfr/io/audiofile.hpp | 2 ++
 include/kfr/io/file.hpp      | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/io/audiofile.hpp b/include/kfr/io/audiofile.hpp
index 6071f11..b81c887 100644
--- a/include/kfr/io/audiofile.hpp
+++ b/include/kfr/io/audiofile.hpp
@@ -62,6 +62,8 @@ struct audio_reader : public abstract_reader<T>
 
     univector2d<T> read_channels(size_t size)
     {
+        if (format().channels == 0)
+            return {};
         univector<T> interleaved = read(size * format().channels);
         univector2d<T> input_channels(format().channels,
                                       univector<T>(interleaved.size() / format().channels));
diff --git a/include/kfr/io/file.hpp b/include/kfr/io/file.hpp
index e14caad..0f1d57e 100644
--- a/include/kfr/io/file.hpp
+++ b/include/kfr/io/file.hpp
@@ -123,7 +123,7 @@ struct abstract_reader : abstract_stream<T>
     univector<T> read(size_t size)
     {
         univector<T> result(size);
-        this->read(result);
+        result.resize(this->read(result));
         return result;
     }
     bool read(std::conditional_t<std::is_void_v<T>, internal_generic::empty, T>& data)
-- 
2.43.0


From 75254f307dda11f5782337f0a103af39f2e1da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 49/94] fix: audio_reader_mp3: double free and division by zero
 when the file cannot be opened

---
 src/io/audiofile-impl.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 97abdec..5e3ca04 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -368,9 +368,15 @@ template <typename T>
 audio_reader_mp3<T>::audio_reader_mp3(std::shared_ptr<abstract_reader<>>&& reader) : reader(std::move(reader))
 {
     f.reset(new internal_generic::mp3_file());
-    drmp3_init(f.get(), (drmp3_read_proc)&internal_generic::drmp3_reader_read_proc,
-               (drmp3_seek_proc)&internal_generic::drmp3_reader_seek_proc, this->reader.get(),
-               reinterpret_cast<const drmp3_config*>(&config), nullptr);
+    if (!drmp3_init(f.get(), (drmp3_read_proc)&internal_generic::drmp3_reader_read_proc,
+                    (drmp3_seek_proc)&internal_generic::drmp3_reader_seek_proc, this->reader.get(),
+                    reinterpret_cast<const drmp3_config*>(&config), nullptr))
+    {
+        delete f.release(); // drmp3_init has already released its memory
+        fmt.channels = 0;
+        fmt.type     = audio_sample_type::unknown;
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(drmp3_get_pcm_frame_count(f.get()));
-- 
2.43.0


From 41ca4d4d3bd44585e2c0d89d2c17035b7ddecb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 50/94] fix: dr_wav: seeking in a file with an incomplete last
 frame ended off the frame boundary

---
 src/io/dr/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index d3250f4..ca0e1f9 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -2993,7 +2993,7 @@ drwav_bool32 drwav_seek_to_pcm_frame(drwav* pWav, drwav_uint64 targetFrameIndex)
         drwav_uint64 targetBytePos;
         drwav_uint64 offset;
 
-        totalSizeInBytes = pWav->totalPCMFrameCount * drwav_get_bytes_per_pcm_frame(pWav);
+        totalSizeInBytes = pWav->dataChunkDataSize; /* the last frame may be incomplete */
         DRWAV_ASSERT(totalSizeInBytes >= pWav->bytesRemaining);
 
         currentBytePos = totalSizeInBytes - pWav->bytesRemaining;
-- 
2.43.0


From 3b8b044fb1f1e0be53f119f834250244e263be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 51/94] fix: dr_wav: W64 chunks are padded to 8 bytes

---
 src/io/dr/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index ca0e1f9..fb4ca07 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -1498,7 +1498,7 @@ static unsigned int drwav__chunk_padding_size_riff(drwav_uint64 chunkSize)
 
 static unsigned int drwav__chunk_padding_size_w64(drwav_uint64 chunkSize)
 {
-    return (unsigned int)(chunkSize % 8);
+    return (unsigned int)((8 - chunkSize % 8) % 8);
 }
 
 drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav_uint64 samplesToRead, drwav_int16* pBufferOut);
-- 
2.43.0


From 51bacc97b9ebbc44dff3318d3a8d0b17892cabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 52/94] fix: sample conversion rounds to nearest instead of
 truncating (round trips lost one step) and saturates 64-bit samples

---
 include/kfr/base/conversion.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/conversion.hpp b/include/kfr/base/conversion.hpp
index 32f1b80..31be2c8 100644
--- a/include/kfr/base/conversion.hpp
+++ b/include/kfr/base/conversion.hpp
@@ -29,6 +29,7 @@
 #include "../simd/types.hpp"
 #include "../simd/vec.hpp"
 #include "univector.hpp"
+#include <limits>
 
 namespace kfr
 {
@@ -171,6 +172,29 @@ struct audio_sample_traits<f64>
     constexpr static audio_sample_type type = audio_sample_type::f64;
 };
 
+namespace internal
+{
+/// Converts a value in the range [-limit, +limit] to sample, integers are rounded to the nearest
+template <typename Tout, typename T, typename Limit>
+inline Tout round_sample(T value, Limit limit)
+{
+    if constexpr (std::is_floating_point_v<Tout>)
+    {
+        return static_cast<Tout>(value);
+    }
+    else
+    {
+        if constexpr (std::is_same_v<Tout, i64>)
+        {
+            // the limit is not representable in the floating point type and has been rounded up
+            if (value >= limit)
+                return std::numeric_limits<i64>::max();
+        }
+        return static_cast<Tout>(value < 0 ? value - T(0.5) : value + T(0.5));
+    }
+}
+} // namespace internal
+
 template <typename Tout, typename Tin, typename Tout_traits = audio_sample_traits<Tout>,
           typename Tin_traits = audio_sample_traits<Tin>, KFR_ENABLE_IF(std::is_same_v<Tin, Tout>)>
 inline Tout convert_sample(const Tin& in)
@@ -183,7 +207,8 @@ template <typename Tout, typename Tin, typename Tout_traits = audio_sample_trait
 inline Tout convert_sample(const Tin& in)
 {
     constexpr auto scale = Tout_traits::scale / Tin_traits::scale;
-    return broadcastto<Tout>(clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale));
+    return internal::round_sample<Tout>(clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale),
+                                        Tout_traits::scale);
 }
 
 /// @brief Deinterleaves and converts audio samples
-- 
2.43.0


From 38e8b2f8a8c4bbfc2283647cf0d7038733b46024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 53/94] fix: samplerate_converter::output_size_for_input
 offered more outputs than the input is enough for when downsampling (lost
 samples)

---
 include/kfr/dsp/sample_rate_conversion.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/sample_rate_conversion.hpp b/include/kfr/dsp/sample_rate_conversion.hpp
index 249b132..1cab4b5 100644
--- a/include/kfr/dsp/sample_rate_conversion.hpp
+++ b/include/kfr/dsp/sample_rate_conversion.hpp
@@ -194,13 +194,18 @@ public:
 
     /**
      * @brief Calculates the output size for a given input size (push method).
+     *
+     * This is the largest output size for which process() consumes no more than input_size samples.
+     * process() returns the number of samples consumed, the remaining samples (less than one output step)
+     * must be passed again at the beginning of the next input.
      * @param input_size Size of the input buffer.
      * @return Required output buffer size.
      */
     KFR_MEM_INTRINSIC itype output_size_for_input(itype input_size) const
     {
-        return input_position_to_output(input_position + input_size - 1) -
-               input_position_to_output(input_position - 1);
+        const itype input_end = output_position_to_input(output_position - 1) + input_size + 1;
+        return floor_div(input_position_to_intermediate(input_end) - 1, decimation_factor).quot + 1 -
+               output_position;
     }
 
     /**
-- 
2.43.0


From a542e69d5b7afbc9dfd39c8df7c1d8415103c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 54/94] fix: npy: bool arrays were written as (and only read
 from) unsigned 8-bit integers

---
 include/kfr/base/npy.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 7971a24..75584d3 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -40,7 +40,11 @@ std::string_view npy_format()
 {
     using namespace cometa;
     static_assert(is_poweroftwo(sizeof(T)) && is_between(sizeof(T), 1, 16));
-    if constexpr (std::is_floating_point_v<T>)
+    if constexpr (std::is_same_v<T, bool>)
+    {
+        return "|b1";
+    }
+    else if constexpr (std::is_floating_point_v<T>)
     {
         const std::string_view fmts[] = { "|f1", "<f2", "<f4", "<f8" };
         static_assert(sizeof(T) <= 8);
@@ -64,10 +68,6 @@ std::string_view npy_format()
         static_assert(sizeof(T) <= 16);
         return fmts[ilog2(sizeof(T))];
     }
-    else if constexpr (std::is_same_v<T, bool>)
-    {
-        return "|b1";
-    }
     else
     {
         static_assert("Cannot save type to python");
-- 
2.43.0


From 505a04c9b43cb8de9835c6fbf73a2445d5f99377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 55/94] fix: npy: files without all the data were reported as
 loaded

---
 include/kfr/base/npy.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 75584d3..70c8806 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -443,7 +443,14 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
             return npy_decode_result::cannot_read;
         header_len = header_len16;
     }
-    std::string header = rd(ctype<char>, header_len);
+    std::string header;
+    while (header.size() < header_len) // the length may be anything in a damaged file
+    {
+        std::string part = rd(ctype<char>, std::min<size_t>(header_len - header.size(), 65536));
+        if (part.empty())
+            return npy_decode_result::cannot_read;
+        header += part;
+    }
 
     npy_header hdr;
     if (!npy_decode_dict(header, hdr))
@@ -472,7 +479,8 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
 
     tensor<T, 1> buffer(shape<1>{ sh.product() });
 
-    rd(ctype<T>, buffer.data(), buffer.size());
+    if (!rd(ctype<T>, buffer.data(), buffer.size()))
+        return npy_decode_result::cannot_read;
     if (convert_endianness)
     {
         convert_endianess(buffer.data(), buffer.size());
-- 
2.43.0


From 1298e57a7ed66a559d1918d2cf431285bd5fe4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 56/94] fix: npy: endless loop on brackets in an unknown header
 field

---
 include/kfr/base/npy.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 70c8806..0a71a9c 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -196,30 +196,33 @@ inline bool npy_skip_value(std::string_view& data, char close = '}', std::string
         case '"':
             if (!npy_parse_string(data, dummy, data[0]))
                 return false;
-            break;
+            continue;
         case '(':
+            context += ')';
+            break;
         case '[':
+            context += ']';
+            break;
         case '{':
-            context += data[0];
+            context += '}';
             break;
         case ')':
         case ']':
         case '}':
             if (context.empty())
                 return data[0] == close;
-            if (context.back() == data[0])
-                context.pop_back();
+            if (context.back() != data[0])
+                return false;
+            context.pop_back();
             break;
         case ',':
             if (context.empty())
                 return true;
-            else
-                data = data.substr(1);
             break;
         default:
-            data = data.substr(1);
             break;
         }
+        data = data.substr(1);
     }
     return false;
 }
-- 
2.43.0


From 5114a418f3b45b1767046f46e32bdb14a156b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 57/94] fix: npy: shapes too large for the index type threw or
 wrapped around

---
 include/kfr/base/npy.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 0a71a9c..ee4d74f 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -245,19 +245,25 @@ inline bool npy_parse_bool(std::string_view& data, bool& content)
 }
 inline bool npy_parse_integer(std::string_view& data, index_t& content)
 {
-    const char* orig = data.data();
-    if (data[0] < '0' || data[0] > '9')
+    if (data.empty() || data[0] < '0' || data[0] > '9')
         return false;
 
-    while (data[0] >= '0' && data[0] <= '9')
-        data = data.substr(1);
-    content = std::stoll(std::string(orig, data.data() - orig));
+    content = 0;
+    while (!data.empty() && data[0] >= '0' && data[0] <= '9')
+    {
+        const index_t digit = static_cast<index_t>(data[0] - '0');
+        if (content > (std::numeric_limits<index_t>::max() - digit) / 10)
+            return false;
+        content = content * 10 + digit;
+        data    = data.substr(1);
+    }
     return true;
 }
 inline bool npy_parse_shape(std::string_view& data, std::vector<index_t>& content)
 {
-    if (data[0] != '(')
+    if (data.empty() || data[0] != '(')
         return false;
+    content.clear();
     data = data.substr(1);
     if (!npy_skip_whitespace(data))
         return false;
@@ -340,9 +346,11 @@ inline bool npy_decode_dict(std::string_view data, npy_header& hdr)
         {
             return false;
         }
+        if (data.empty())
+            return false;
         if (data[0] == '}')
             return true;
-        if (data.empty() || data[0] != ',')
+        if (data[0] != ',')
             return false;
         data = data.substr(1);
         if (!npy_skip_whitespace(data))
@@ -479,8 +487,17 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
     std::copy(hdr.shape.begin(), hdr.shape.end(), sh.begin());
     if (sh.product() == 0)
         return npy_decode_result::invalid_shape;
+    index_t limit = static_cast<index_t>(std::numeric_limits<std::ptrdiff_t>::max() / sizeof(T));
+    for (index_t i : hdr.shape)
+    {
+        if (i > limit)
+            return npy_decode_result::invalid_shape;
+        limit /= i;
+    }
 
     tensor<T, 1> buffer(shape<1>{ sh.product() });
+    if (buffer.data() == nullptr)
+        return npy_decode_result::cannot_read;
 
     if (!rd(ctype<T>, buffer.data(), buffer.size()))
         return npy_decode_result::cannot_read;
-- 
2.43.0


From df54eb17cacd11b7f8c83ef8efbecbf8feeb9a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 58/94] fix: npy: damaged or repeated type and shape fields
 were accepted

---
 include/kfr/base/npy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index ee4d74f..eb3eb84 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -312,6 +312,7 @@ inline bool npy_decode_field(std::string_view& data, npy_header& hdr)
 
     if (name == "descr")
     {
+        hdr.descr.clear();
         return npy_parse_string(data, hdr.descr);
     }
     else if (name == "fortran_order")
@@ -471,7 +472,8 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
     bool convert_endianness = false;
     if (hdr.descr != tfmt)
     {
-        if (hdr.descr.size() > 1 && hdr.descr[0] != tfmt[0] && hdr.descr.substr(1) == tfmt.substr(1))
+        if (hdr.descr.size() > 1 && std::string_view("<>=|").find(hdr.descr[0]) != std::string_view::npos &&
+            hdr.descr.substr(1) == tfmt.substr(1))
         {
             convert_endianness = hdr.descr[0] == '>';
         }
-- 
2.43.0


From 16241ca291f1e41a3b04d91c996156c8a9bd2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 59/94] fix: npy: loading bool arrays did not compile

---
 include/kfr/base/npy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index eb3eb84..810e58f 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -503,9 +503,12 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
 
     if (!rd(ctype<T>, buffer.data(), buffer.size()))
         return npy_decode_result::cannot_read;
-    if (convert_endianness)
+    if constexpr (sizeof(T) > 1)
     {
-        convert_endianess(buffer.data(), buffer.size());
+        if (convert_endianness)
+        {
+            convert_endianess(buffer.data(), buffer.size());
+        }
     }
     if (hdr.fortran_order)
     {
-- 
2.43.0


From badd4e757567dbc6652fd223e06f6b3f4e1f6b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 60/94] fix: freeing a null pointer (of an allocation that has
 failed) crashed

---
 include/kfr/cometa/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 26f7d15..b065c13 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -86,6 +86,8 @@ inline void aligned_add_ref(void* ptr) { aligned_header(ptr)->references()++; }
 
 inline void aligned_free(void* ptr)
 {
+    if (ptr == nullptr)
+        return;
     if (--aligned_header(ptr)->references() == 0)
         aligned_force_free(ptr);
 }
-- 
2.43.0


From 6592f09249273f4626ec06775b93a40dfb88261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 61/94] fix: aligned allocation of sizes that overflow gave
 small blocks, alignments that are no power of two were accepted and failures
 were counted as allocations

---
 include/kfr/cometa/memory.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index b065c13..eabb2a4 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -59,13 +59,16 @@ inline size_t aligned_size(void* ptr) { return aligned_header(ptr)->size; }
 
 inline void* aligned_malloc(size_t size, size_t alignment)
 {
-    if (alignment == 0 || alignment > 32768)
+    if (alignment == 0 || alignment > 32768 || (alignment & (alignment - 1)) != 0)
         return nullptr;
-    get_memory_statistics().allocation_count++;
-    get_memory_statistics().allocation_size += size;
-    void* ptr = malloc(size + (alignment - 1) + sizeof(mem_header));
+    const size_t extra = (alignment - 1) + sizeof(mem_header);
+    if (size > std::numeric_limits<size_t>::max() - extra)
+        return nullptr;
+    void* ptr = malloc(size + extra);
     if (ptr == nullptr)
         return nullptr;
+    get_memory_statistics().allocation_count++;
+    get_memory_statistics().allocation_size += size;
     void* aligned_ptr                         = advance(ptr, sizeof(mem_header));
     aligned_ptr                               = align_up(aligned_ptr, alignment);
     aligned_header(aligned_ptr)->alignment    = static_cast<u16>(alignment);
@@ -132,6 +135,8 @@ constexpr inline size_t default_memory_alignment = 64;
 template <typename T = void, size_t alignment = default_memory_alignment>
 CMT_INTRINSIC T* aligned_allocate(size_t size = 1)
 {
+    if (size > std::numeric_limits<size_t>::max() / details::elementsize<T>())
+        return nullptr;
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
         details::aligned_malloc(std::max(alignment, size * details::elementsize<T>()), alignment),
         alignment));
@@ -141,6 +146,8 @@ CMT_INTRINSIC T* aligned_allocate(size_t size = 1)
 template <typename T = void>
 CMT_INTRINSIC T* aligned_allocate(size_t size, size_t alignment)
 {
+    if (size > std::numeric_limits<size_t>::max() / details::elementsize<T>())
+        return nullptr;
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
         details::aligned_malloc(std::max(alignment, size * details::elementsize<T>()), alignment),
         alignment));
-- 
2.43.0


From 9434bfd31fcb2b01b76e189ff4b1a66988ae1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 62/94] fix: aligned_reallocate wrote to a null pointer when
 the allocation failed

---
 include/kfr/cometa/memory.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index eabb2a4..ad86948 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -103,7 +103,9 @@ inline void* aligned_reallocate(void* ptr, size_t new_size, size_t alignment)
     {
         if (new_size)
         {
-            void* new_ptr   = aligned_malloc(new_size, alignment);
+            void* new_ptr = aligned_malloc(new_size, alignment);
+            if (new_ptr == nullptr)
+                return nullptr; // the old block is kept
             size_t old_size = aligned_size(ptr);
             memcpy(new_ptr, ptr, std::min(old_size, new_size));
             aligned_release(ptr);
-- 
2.43.0


From 1254bdcdba3af8ce42ffc53cd8f4fa7b84f7b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 63/94] fix: capi: the multi-dimensional real DFT functions for
 f64 were declared but not defined

---
 src/capi/capi.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/capi/capi.cpp b/src/capi/capi.cpp
index e050d70..815d735 100644
--- a/src/capi/capi.cpp
+++ b/src/capi/capi.cpp
@@ -411,6 +411,40 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_plan_f64(size_t size, KF
         nullptr);
 }
 
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_2d_plan_f64(size_t size1, size_t size2,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 2>(shape{ size1, size2 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_3d_plan_f64(size_t size1, size_t size2, size_t size3,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 3>(shape{ size1, size2, size3 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_md_plan_f64(size_t dims, const unsigned* shape,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, dynamic_shape>(init_shape(dims, shape), real_out_is_enough));
+        },
+        nullptr);
+}
+
 KFR_API_SPEC void kfr_dft_real_dump_f32(KFR_DFT_REAL_PLAN_F32* plan)
 {
     try_fn([&]() { reinterpret_cast<var_dft_plan<float>*>(plan)->dump(); });
-- 
2.43.0


From 3350ae54f7c66a32aaa86a900df9471d713a03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 64/94] fix: a plan or temporary buffer too large to be
 allocated crashed instead of throwing bad_alloc

---
 include/kfr/cometa/memory.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index ad86948..e4e9671 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -180,7 +180,11 @@ struct autofree
     CMT_MEM_INTRINSIC autofree() {}
 
     /// @brief Allocates aligned memory for given size.
-    explicit CMT_MEM_INTRINSIC autofree(size_t size) : ptr(aligned_allocate<T>(size)) {}
+    explicit CMT_MEM_INTRINSIC autofree(size_t size) : ptr(aligned_allocate<T>(size))
+    {
+        if (!ptr)
+            CMT_THROW(std::bad_alloc());
+    }
 
     autofree(const autofree&)                    = delete;
     autofree& operator=(const autofree&)         = delete;
-- 
2.43.0


From 64c3ed9154f010309ec6ea59dcbd04bc8c1d13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 65/94] fix: capi: null arrays, empty arrays and empty
 multi-dimensional shapes crashed instead of being refused

---
 src/capi/capi.cpp | 53 +++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/capi/capi.cpp b/src/capi/capi.cpp
index 815d735..0cf4171 100644
--- a/src/capi/capi.cpp
+++ b/src/capi/capi.cpp
@@ -94,8 +94,25 @@ public:
     virtual void execute_inverse(T*, const T*, u8*) = 0;
 };
 
+// Reject an absent or empty array argument
+template <typename T>
+static const T* check_array(const T* data, size_t size)
+{
+    KFR_LOGIC_CHECK(data != nullptr, "null pointer is passed instead of an array");
+    KFR_LOGIC_CHECK(size > 0, "empty array is passed");
+    return data;
+}
+
+template <index_t Dims>
+static const shape<Dims>& check_shape(const shape<Dims>& sh)
+{
+    KFR_LOGIC_CHECK(sh.product() > 0, "all sizes of a multi-dimensional DFT must be positive");
+    return sh;
+}
+
 static shape<dynamic_shape> init_shape(size_t dims, const unsigned* shape_)
 {
+    check_array(shape_, dims);
     shape<dynamic_shape> sh(dims);
     for (size_t i = 0; i < dims; ++i)
     {
@@ -218,7 +235,7 @@ KFR_API_SPEC KFR_DFT_PLAN_F32* kfr_dft_create_2d_plan_f32(size_t size1, size_t s
     return try_fn(
         [&]() {
             return reinterpret_cast<KFR_DFT_PLAN_F32*>(
-                new var_dft_plan_impl<float, 2>(shape{ size1, size2 }));
+                new var_dft_plan_impl<float, 2>(check_shape(shape{ size1, size2 })));
         },
         nullptr);
 }
@@ -228,7 +245,7 @@ KFR_API_SPEC KFR_DFT_PLAN_F32* kfr_dft_create_3d_plan_f32(size_t size1, size_t s
         [&]()
         {
             return reinterpret_cast<KFR_DFT_PLAN_F32*>(
-                new var_dft_plan_impl<float, 3>(shape{ size1, size2, size3 }));
+                new var_dft_plan_impl<float, 3>(check_shape(shape{ size1, size2, size3 })));
         },
         nullptr);
 }
@@ -238,7 +255,7 @@ KFR_API_SPEC KFR_DFT_PLAN_F32* kfr_dft_create_md_plan_f32(size_t dims, const uns
         [&]()
         {
             return reinterpret_cast<KFR_DFT_PLAN_F32*>(
-                new var_dft_plan_impl<float, dynamic_shape>(init_shape(dims, shape)));
+                new var_dft_plan_impl<float, dynamic_shape>(check_shape(init_shape(dims, shape))));
         },
         nullptr);
 }
@@ -253,7 +270,7 @@ KFR_API_SPEC KFR_DFT_PLAN_F64* kfr_dft_create_2d_plan_f64(size_t size1, size_t s
     return try_fn(
         [&]() {
             return reinterpret_cast<KFR_DFT_PLAN_F64*>(
-                new var_dft_plan_impl<double, 2>(shape{ size1, size2 }));
+                new var_dft_plan_impl<double, 2>(check_shape(shape{ size1, size2 })));
         },
         nullptr);
 }
@@ -263,7 +280,7 @@ KFR_API_SPEC KFR_DFT_PLAN_F64* kfr_dft_create_3d_plan_f64(size_t size1, size_t s
         [&]()
         {
             return reinterpret_cast<KFR_DFT_PLAN_F64*>(
-                new var_dft_plan_impl<double, 3>(shape{ size1, size2, size3 }));
+                new var_dft_plan_impl<double, 3>(check_shape(shape{ size1, size2, size3 })));
         },
         nullptr);
 }
@@ -273,7 +290,7 @@ KFR_API_SPEC KFR_DFT_PLAN_F64* kfr_dft_create_md_plan_f64(size_t dims, const uns
         [&]()
         {
             return reinterpret_cast<KFR_DFT_PLAN_F64*>(
-                new var_dft_plan_impl<double, dynamic_shape>(init_shape(dims, shape)));
+                new var_dft_plan_impl<double, dynamic_shape>(check_shape(init_shape(dims, shape))));
         },
         nullptr);
 }
@@ -373,7 +390,7 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F32* kfr_dft_real_create_2d_plan_f32(size_t size1
         [&]()
         {
             return reinterpret_cast<KFR_DFT_REAL_PLAN_F32*>(
-                new var_dft_plan_real_impl<float, 2>(shape{ size1, size2 }, real_out_is_enough));
+                new var_dft_plan_real_impl<float, 2>(check_shape(shape{ size1, size2 }), real_out_is_enough));
         },
         nullptr);
 }
@@ -384,7 +401,7 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F32* kfr_dft_real_create_3d_plan_f32(size_t size1
         [&]()
         {
             return reinterpret_cast<KFR_DFT_REAL_PLAN_F32*>(
-                new var_dft_plan_real_impl<float, 3>(shape{ size1, size2, size3 }, real_out_is_enough));
+                new var_dft_plan_real_impl<float, 3>(check_shape(shape{ size1, size2, size3 }), real_out_is_enough));
         },
         nullptr);
 }
@@ -395,7 +412,7 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F32* kfr_dft_real_create_md_plan_f32(size_t dims,
         [&]()
         {
             return reinterpret_cast<KFR_DFT_REAL_PLAN_F32*>(
-                new var_dft_plan_real_impl<float, dynamic_shape>(init_shape(dims, shape), real_out_is_enough));
+                new var_dft_plan_real_impl<float, dynamic_shape>(check_shape(init_shape(dims, shape)), real_out_is_enough));
         },
         nullptr);
 }
@@ -418,7 +435,7 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_2d_plan_f64(size_t size1
         [&]()
         {
             return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
-                new var_dft_plan_real_impl<double, 2>(shape{ size1, size2 }, real_out_is_enough));
+                new var_dft_plan_real_impl<double, 2>(check_shape(shape{ size1, size2 }), real_out_is_enough));
         },
         nullptr);
 }
@@ -429,7 +446,7 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_3d_plan_f64(size_t size1
         [&]()
         {
             return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
-                new var_dft_plan_real_impl<double, 3>(shape{ size1, size2, size3 }, real_out_is_enough));
+                new var_dft_plan_real_impl<double, 3>(check_shape(shape{ size1, size2, size3 }), real_out_is_enough));
         },
         nullptr);
 }
@@ -440,7 +457,7 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_md_plan_f64(size_t dims,
         [&]()
         {
             return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
-                new var_dft_plan_real_impl<double, dynamic_shape>(init_shape(dims, shape), real_out_is_enough));
+                new var_dft_plan_real_impl<double, dynamic_shape>(check_shape(init_shape(dims, shape)), real_out_is_enough));
         },
         nullptr);
 }
@@ -589,14 +606,14 @@ KFR_API_SPEC KFR_FILTER_F32* kfr_filter_create_fir_plan_f32(const kfr_f32* taps,
 {
     return try_fn(
         [&]()
-        { return reinterpret_cast<KFR_FILTER_F32*>(new fir_filter<float>(make_univector(taps, size))); },
+        { return reinterpret_cast<KFR_FILTER_F32*>(new fir_filter<float>(make_univector(check_array(taps, size), size))); },
         nullptr);
 }
 KFR_API_SPEC KFR_FILTER_F64* kfr_filter_create_fir_plan_f64(const kfr_f64* taps, size_t size)
 {
     return try_fn(
         [&]()
-        { return reinterpret_cast<KFR_FILTER_F64*>(new fir_filter<double>(make_univector(taps, size))); },
+        { return reinterpret_cast<KFR_FILTER_F64*>(new fir_filter<double>(make_univector(check_array(taps, size), size))); },
         nullptr);
 }
 
@@ -607,7 +624,7 @@ KFR_API_SPEC KFR_FILTER_F32* kfr_filter_create_convolution_plan_f32(const kfr_f3
         [&]()
         {
             return reinterpret_cast<KFR_FILTER_F32*>(
-                new convolve_filter<float>(make_univector(taps, size), block_size ? block_size : 1024));
+                new convolve_filter<float>(make_univector(check_array(taps, size), size), block_size ? block_size : 1024));
         },
         nullptr);
 }
@@ -618,7 +635,7 @@ KFR_API_SPEC KFR_FILTER_F64* kfr_filter_create_convolution_plan_f64(const kfr_f6
         [&]()
         {
             return reinterpret_cast<KFR_FILTER_F64*>(
-                new convolve_filter<double>(make_univector(taps, size), block_size ? block_size : 1024));
+                new convolve_filter<double>(make_univector(check_array(taps, size), size), block_size ? block_size : 1024));
         },
         nullptr);
 }
@@ -629,7 +646,7 @@ KFR_API_SPEC KFR_FILTER_F32* kfr_filter_create_iir_plan_f32(const kfr_f32* sos,
         [&]()
         {
             return reinterpret_cast<KFR_FILTER_F32*>(new iir_filter<float>(
-                iir_params{ reinterpret_cast<const biquad_section<float>*>(sos), sos_count }));
+                iir_params{ reinterpret_cast<const biquad_section<float>*>(check_array(sos, sos_count)), sos_count }));
         },
         nullptr);
 }
@@ -639,7 +656,7 @@ KFR_API_SPEC KFR_FILTER_F64* kfr_filter_create_iir_plan_f64(const kfr_f64* sos,
         [&]()
         {
             return reinterpret_cast<KFR_FILTER_F64*>(new iir_filter<double>(
-                iir_params{ reinterpret_cast<const biquad_section<double>*>(sos), sos_count }));
+                iir_params{ reinterpret_cast<const biquad_section<double>*>(check_array(sos, sos_count)), sos_count }));
         },
         nullptr);
 }
-- 
2.43.0


From 24c21aeefd27f77881ea62ca1cdc608816c0cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:53 +0000
Subject: [PATCH 66/94] fix: creating an iir filter terminated or crashed when
 memory ran out (noexcept constructors, unchecked allocation)

---
 include/kfr/base/handle.hpp | 5 ++++-
 include/kfr/dsp/biquad.hpp  | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 431d02a..3cd7bea 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -172,8 +172,11 @@ template <typename E>
 KFR_INTRINSIC std::shared_ptr<expression_resource> make_resource(E&& e)
 {
     using T = expression_resource_impl<std::decay_t<E>>;
+    T* ptr  = aligned_allocate<T>();
+    if (!ptr)
+        CMT_THROW(std::bad_alloc());
     return std::static_pointer_cast<expression_resource>(
-        std::shared_ptr<T>(new (aligned_allocate<T>()) T(std::move(e)),
+        std::shared_ptr<T>(new (ptr) T(std::move(e)),
                            [](T* pi)
                            {
                                pi->~T();
diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 53595d7..44ddd9e 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -142,7 +142,7 @@ struct iir_params
     CMT_GNU_CONSTEXPR iir_params(const biquad_section<T>& one) CMT_NOEXCEPT : iir_params(&one, 1) {}
 
     template <typename Container, CMT_HAS_DATA_SIZE(Container)>
-    constexpr iir_params(Container&& cont) CMT_NOEXCEPT : iir_params(std::data(cont), std::size(cont))
+    constexpr iir_params(Container&& cont) : iir_params(std::data(cont), std::size(cont))
     {
     }
 };
@@ -158,14 +158,14 @@ struct iir_params<T, tag_dynamic_vector> : public std::vector<biquad_section<T>>
 
     iir_params(size_t count) : base(count) {}
 
-    iir_params(const biquad_section<T>* bq, size_t count) CMT_NOEXCEPT : base(bq, bq + count) {}
+    iir_params(const biquad_section<T>* bq, size_t count) : base(bq, bq + count) {}
 
-    iir_params(const biquad_section<T>& one) CMT_NOEXCEPT : iir_params(&one, 1) {}
+    iir_params(const biquad_section<T>& one) : iir_params(&one, 1) {}
 
     iir_params(std::vector<biquad_section<T>>&& sections) CMT_NOEXCEPT : base(std::move(sections)) {}
 
     template <typename Container, CMT_HAS_DATA_SIZE(Container)>
-    constexpr iir_params(Container&& cont) CMT_NOEXCEPT : iir_params(std::data(cont), std::size(cont))
+    constexpr iir_params(Container&& cont) : iir_params(std::data(cont), std::size(cont))
     {
     }
 
-- 
2.43.0


From 8d567f350048559b20ad0f033fd03a5a38354b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 67/94] fix: small_buffer: pushing an element of the buffer
 read freed memory, elements in allocated memory were never constructed or
 destroyed, a failed allocation crashed

---
 include/kfr/base/small_buffer.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/small_buffer.hpp b/include/kfr/base/small_buffer.hpp
index 4633774..8e2b955 100644
--- a/include/kfr/base/small_buffer.hpp
+++ b/include/kfr/base/small_buffer.hpp
@@ -28,6 +28,7 @@
 #include "memory.hpp"
 #include <algorithm>
 #include <cstdint>
+#include <memory>
 
 namespace kfr
 {
@@ -76,13 +77,19 @@ public:
         else
         {
             m_newdata = aligned_allocate<T>(newsize);
+            if (!m_newdata)
+                CMT_THROW(std::bad_alloc());
+            std::uninitialized_default_construct_n(m_newdata, newsize);
         }
         if (m_newdata != m_data)
         {
             std::copy_n(std::make_move_iterator(m_data), std::min(newsize, m_size), m_newdata);
         }
         if (m_data != m_preallocated)
+        {
+            std::destroy_n(m_data, m_size);
             aligned_deallocate(m_data);
+        }
         m_data = m_newdata;
         m_size = newsize;
     }
@@ -106,8 +113,9 @@ public:
     const T& operator[](std::size_t i) const { return m_data[i]; }
     void push_back(const T& value)
     {
+        T copy = value; // value may be an element of this buffer
         resize(m_size + 1);
-        m_data[m_size - 1] = value;
+        m_data[m_size - 1] = std::move(copy);
     }
 
 protected:
-- 
2.43.0


From f92a5b66623fab9876c0c732f75fe847e70ff72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 68/94] fix: inline_vector: a vector compared equal to any
 longer vector it is the beginning of

---
 include/kfr/base/inline_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/inline_vector.hpp b/include/kfr/base/inline_vector.hpp
index b559c2f..9be468c 100644
--- a/include/kfr/base/inline_vector.hpp
+++ b/include/kfr/base/inline_vector.hpp
@@ -121,7 +121,7 @@ struct inline_vector
 
     constexpr bool operator==(const inline_vector& other) const
     {
-        return std::equal(begin(), end(), other.begin());
+        return std::equal(begin(), end(), other.begin(), other.end());
     }
     constexpr bool operator!=(const inline_vector& other) const { return !operator==(other); }
 
-- 
2.43.0


From 0d4402d7088c065b9a9b8177aa94e3a8d7e54cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 69/94] fix: column of vectors of complex numbers

---
 include/kfr/simd/shuffle.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/simd/shuffle.hpp b/include/kfr/simd/shuffle.hpp
index a83f9f8..148fb2e 100644
--- a/include/kfr/simd/shuffle.hpp
+++ b/include/kfr/simd/shuffle.hpp
@@ -541,7 +541,8 @@ template <size_t index, typename T, size_t N1, size_t N2>
 KFR_INTRINSIC vec<T, N2> column(const vec<vec<T, N1>, N2>& x)
 {
     static_assert(index < N1, "column index must be less than inner vector length");
-    return x.flatten().shuffle(csizeseq_t<N2>() * csize_t<N1>() + csize_t<index>());
+    return vec<T, N2>::from_flatten(x.flatten().shuffle(scale<compound_type_traits<T>::deep_width>(
+        csizeseq_t<N2>() * csize_t<N1>() + csize_t<index>())));
 }
 
 template <size_t group = 1, typename T, size_t N, size_t size = N / group, size_t side2 = 2,
-- 
2.43.0


From b7556f77588c2334efb9c45f9d1c27be5c017c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 70/94] fix: aligned loads and stores touch only their own
 elements

---
 include/kfr/simd/impl/read_write.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/read_write.hpp b/include/kfr/simd/impl/read_write.hpp
index e5cb538..06586e1 100644
--- a/include/kfr/simd/impl/read_write.hpp
+++ b/include/kfr/simd/impl/read_write.hpp
@@ -387,13 +387,20 @@ KFR_INTRINSIC void write(cunaligned_t, T* dest, const vec<T, N>& x) CMT_NOEXCEPT
 template <size_t N, typename T>
 KFR_INTRINSIC vec<T, N> read(caligned_t, csize_t<N>, const T* __restrict ptr) CMT_NOEXCEPT
 {
-    return *reinterpret_cast<const typename vec<T, N>::simd_type*>(ptr);
+    // The storage of other sizes is larger than N elements
+    if constexpr (is_poweroftwo(N))
+        return *reinterpret_cast<const typename vec<T, N>::simd_type*>(ptr);
+    else
+        return read(cunaligned, csize<N>, static_cast<const T*>(ptr));
 }
 
 template <size_t N, typename T>
 KFR_INTRINSIC void write(caligned_t, T* __restrict ptr, const vec<T, N>& __restrict x) CMT_NOEXCEPT
 {
-    *reinterpret_cast<typename vec<T, N>::simd_type*>(ptr) = x.v;
+    if constexpr (is_poweroftwo(N))
+        *reinterpret_cast<typename vec<T, N>::simd_type*>(ptr) = x.v;
+    else
+        write(cunaligned, static_cast<T*>(ptr), x);
 }
 
 } // namespace intrinsics
-- 
2.43.0


From b73f1a285988d09c1e215fd7e0600cb16c541a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 71/94] fix: scatter_stride of more than two groups

---
 include/kfr/simd/read_write.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index 1337e17..8e02f9b 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -183,8 +183,10 @@ KFR_INTRINSIC void scatter_stride(T* base, const vec<T, N>& value, size_t stride
     if constexpr (Nout > 2)
     {
         constexpr size_t Nlow = prev_poweroftwo(Nout - 1);
-        internal::scatter_helper_s<groupsize>(base, stride, slice<0, Nlow>(value), csizeseq<Nlow>);
-        internal::scatter_helper_s<groupsize>(base + Nlow * stride, stride, slice<Nlow, Nout - Nlow>(value),
+        internal::scatter_helper_s<groupsize>(base, stride, slice<0, Nlow * groupsize>(value),
+                                              csizeseq<Nlow>);
+        internal::scatter_helper_s<groupsize>(base + groupsize * Nlow * stride, stride,
+                                              slice<Nlow * groupsize, (Nout - Nlow) * groupsize>(value),
                                               csizeseq<(Nout - Nlow)>);
     }
     else
-- 
2.43.0


From 2e9afff5e76abc0157a33db3a0c21cb29d9fe7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 72/94] fix: saturated signed addition and subtraction of 32
 and 64 bits clamp

---
 include/kfr/simd/impl/saturation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/saturation.hpp b/include/kfr/simd/impl/saturation.hpp
index 57da206..551acad 100644
--- a/include/kfr/simd/impl/saturation.hpp
+++ b/include/kfr/simd/impl/saturation.hpp
@@ -45,7 +45,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_add(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> sum   = aa + bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), a, bitcast<T>(sum));
+    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), bitcast<T>(aa), bitcast<T>(sum));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>& b)
@@ -57,7 +57,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> diff  = aa - bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), a, bitcast<T>(diff));
+    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), bitcast<T>(aa), bitcast<T>(diff));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_unsigned_add(const vec<T, N>& a, const vec<T, N>& b)
-- 
2.43.0


From 94e4db4fc259c841a0d5d6bc6cc804211f844321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 73/94] fix: all() of 512-bit floating point masks

---
 include/kfr/simd/impl/logical.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/logical.hpp b/include/kfr/simd/impl/logical.hpp
index a511088..89019de 100644
--- a/include/kfr/simd/impl/logical.hpp
+++ b/include/kfr/simd/impl/logical.hpp
@@ -108,11 +108,11 @@ KFR_INTRINSIC bool bittestany(const mi64avx512& x) { return _mm512_movepi64_mask
 // horizontal AND
 KFR_INTRINSIC bool bittestall(const mf32avx512& x)
 {
-    return !~_mm512_movepi32_mask(_mm512_castps_si512(x.v));
+    return !uint16_t(~_mm512_movepi32_mask(_mm512_castps_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mf64avx512& x)
 {
-    return !~_mm512_movepi64_mask(_mm512_castpd_si512(x.v));
+    return !uint8_t(~_mm512_movepi64_mask(_mm512_castpd_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mu8avx512& x) { return !~_mm512_movepi8_mask(x.v); }
 KFR_INTRINSIC bool bittestall(const mu16avx512& x) { return !~_mm512_movepi16_mask(x.v); }
-- 
2.43.0


From f5be1a75001ebdca423d69e74a43486e5f6016f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 74/94] fix: isnegative and ispositive of floating point
 numbers

---
 include/kfr/simd/comparison.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kfr/simd/comparison.hpp b/include/kfr/simd/comparison.hpp
index 573090c..58b4927 100644
--- a/include/kfr/simd/comparison.hpp
+++ b/include/kfr/simd/comparison.hpp
@@ -92,7 +92,11 @@ KFR_INTRINSIC mask<T, N> isfinite(const vec<T, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC mask<T, N> isnegative(const vec<T, N>& x)
 {
-    return (x & special_constants<T>::highbitmask()) != 0;
+    // For floating point numbers the sign bit alone is -0, which is equal to 0
+    if constexpr (std::is_floating_point_v<T>)
+        return ((x & special_constants<T>::highbitmask()) | T(1)) < T();
+    else
+        return (x & special_constants<T>::highbitmask()) != 0;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From b557b45ae27fbf13a67b4cf77d43c79271d82a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 75/94] fix: rotation of bits by zero

---
 include/kfr/simd/operators.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index 2b0c9bb..642fd7c 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -281,7 +281,8 @@ KFR_FN(shr)
 template <typename T1, typename T2>
 KFR_INTRINSIC T1 rol(const T1& left, const T2& right)
 {
-    return shl(left, right) | shr(left, (static_cast<subtype<T1>>(typebits<T1>::bits) - right));
+    return shl(left, right) | shr(left, (static_cast<subtype<T1>>(typebits<T1>::bits) - right) &
+                                         static_cast<subtype<T1>>(typebits<T1>::bits - 1));
 }
 KFR_FN(rol)
 
@@ -289,7 +290,8 @@ KFR_FN(rol)
 template <typename T1, typename T2>
 KFR_INTRINSIC T1 ror(const T1& left, const T2& right)
 {
-    return shr(left, right) | shl(left, (static_cast<subtype<T1>>(typebits<T1>::bits) - right));
+    return shr(left, right) | shl(left, (static_cast<subtype<T1>>(typebits<T1>::bits) - right) &
+                                          static_cast<subtype<T1>>(typebits<T1>::bits - 1));
 }
 KFR_FN(ror)
 
-- 
2.43.0


From ce3bd708c9c9d31cfb3a8eb18f5ab151778089cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 76/94] fix: copysign keeps the magnitude of its first argument

---
 include/kfr/simd/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index 642fd7c..724939c 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -595,7 +595,7 @@ KFR_FN(mulsign)
 template <typename T, size_t N>
 constexpr KFR_INTRINSIC vec<T, N> copysign(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return (x & special_constants<T>::highbitmask()) | (y & special_constants<T>::highbitmask());
+    return (x & special_constants<T>::invhighbitmask()) | (y & special_constants<T>::highbitmask());
 }
 
 /// @brief Swap byte order
-- 
2.43.0


From 0d324d35f1041d4169f4184e3cfdbf5a1b7c795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 77/94] fix: a reset of the loudness meter keeps the packet it
 comes with and drops everything before it

---
 include/kfr/dsp/ebu.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/kfr/dsp/ebu.hpp b/include/kfr/dsp/ebu.hpp
index b3cfbcd..76584f2 100644
--- a/include/kfr/dsp/ebu.hpp
+++ b/include/kfr/dsp/ebu.hpp
@@ -311,6 +311,17 @@ public:
     template <univector_tag Tag>
     void process_packet(const std::vector<univector<T, Tag>>& source)
     {
+        if (m_need_reset)
+        {
+            m_need_reset = false;
+            for (size_t ch = 0; ch < m_channels.size(); ch++)
+            {
+                m_channels[ch].reset();
+            }
+            m_integrated_buffer.reset();
+            m_lra_buffer.reset();
+        }
+
         T momentary = 0;
         T shortterm = 0;
         for (size_t ch = 0; ch < m_channels.size(); ch++)
@@ -327,16 +338,6 @@ public:
             }
         }
 
-        if (m_need_reset)
-        {
-            m_need_reset = false;
-            for (size_t ch = 0; ch < m_channels.size(); ch++)
-            {
-                m_channels[ch].reset();
-            }
-            m_integrated_buffer.reset();
-            m_lra_buffer.reset();
-        }
         if (m_running)
         {
             m_integrated_buffer.push(momentary);
-- 
2.43.0


From 5fb95dd7b9491ea9bca1fa6848f4699c0e0a886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:16 +0000
Subject: [PATCH 78/94] fix: logarithms of subnormal numbers (NaN loudness
 while a filter decays into silence)

---
 include/kfr/math/impl/log_exp.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 57109b8..8163aa2 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -65,8 +65,9 @@ KFR_INTRINSIC vec<f32, N> vldexpk(const vec<f32, N>& x, const vec<i32, N>& q)
     m                    = (((m + q) >> 6) - m) << 4;
     const vec<i32, N> qq = q - (m << 2);
     m                    = clamp(m + 0x7f, vec<i32, N>(0xff));
-    vec<f32, N> u        = pow4(bitcast<f32>(broadcastto<i32>(m) << 23));
-    return x * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
+    vec<f32, N> u        = bitcast<f32>(broadcastto<i32>(m) << 23);
+    u                    = u * u;
+    return x * u * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
 }
 
 template <size_t N>
@@ -76,8 +77,9 @@ KFR_INTRINSIC vec<f64, N> vldexpk(const vec<f64, N>& x, const vec<i64, N>& q)
     m                    = (((m + q) >> 9) - m) << 7;
     const vec<i64, N> qq = q - (m << 2);
     m                    = clamp(m + 0x3ff, i64(0x7ff));
-    vec<f64, N> u        = pow4(bitcast<f64>(broadcastto<i64>(m) << 52));
-    return x * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
+    vec<f64, N> u        = bitcast<f64>(broadcastto<i64>(m) << 52);
+    u                    = u * u;
+    return x * u * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From a5570cfc1ebee786732d0d3570d0f6e6f6e03935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:52 +0000
Subject: [PATCH 79/94] fix: AVX2 and AVX512 code is selected only on
 processors with FMA, which it uses

---
 include/kfr/runtime/cpuid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/runtime/cpuid.hpp b/include/kfr/runtime/cpuid.hpp
index 6318505..271096c 100644
--- a/include/kfr/runtime/cpuid.hpp
+++ b/include/kfr/runtime/cpuid.hpp
@@ -281,10 +281,11 @@ cpu_t detect_cpu()
     c.hasAVXOSSUPPORT    = c.hasAVX && c.hasOSXSAVE && (get_xcr0() & 0x06) == 0x06;
     c.hasAVX512OSSUPPORT = c.hasAVXOSSUPPORT && c.hasAVX512F && c.hasOSXSAVE && (get_xcr0() & 0xE0) == 0xE0;
 
-    if (c.hasAVX512F && c.hasAVX512CD && c.hasAVX512VL && c.hasAVX512BW && c.hasAVX512DQ &&
+    // code for AVX2 and AVX512 also uses FMA
+    if (c.hasAVX512F && c.hasAVX512CD && c.hasAVX512VL && c.hasAVX512BW && c.hasAVX512DQ && c.hasFMA &&
         c.hasAVX512OSSUPPORT)
         return cpu_t::avx512;
-    if (c.hasAVX2 && c.hasAVXOSSUPPORT)
+    if (c.hasAVX2 && c.hasFMA && c.hasAVXOSSUPPORT)
         return cpu_t::avx2;
     if (c.hasAVX && c.hasAVXOSSUPPORT)
         return cpu_t::avx1;
-- 
2.43.0


From c616a0f0d661352b536eddd109f19965f42d634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 80/94] fix: the complex square root of zero is zero, not NaN

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index d03acb4..989edb6 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -136,7 +136,7 @@ template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> csqrt(const vec<complex<T>, N>& x)
 {
     const vec<T, N> s        = sqrt((abs(real(x)) + cabs(x)) * 0.5);
-    const vec<T, N> d        = abs(imag(x)) * 0.5 / s;
+    const vec<T, N> d        = select(s == T(0), T(0), abs(imag(x)) * T(0.5) / s);
     const mask<T, N> posreal = real(x) >= T(0);
     const vec<T, N> imagsign = imag(x) & special_constants<T>::highbitmask();
     return make_complex(select(posreal, s, d), select(posreal, d ^ imagsign, s ^ imagsign));
-- 
2.43.0


From ed70d4e04a39e442bc36f36dfa212f6f16b6d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 81/94] fix: biquad_allpass takes a normalized frequency and a
 quality like the others and returns a0 = 1

---
 include/kfr/dsp/biquad_design.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/kfr/dsp/biquad_design.hpp b/include/kfr/dsp/biquad_design.hpp
index 27f9362..1a255aa 100644
--- a/include/kfr/dsp/biquad_design.hpp
+++ b/include/kfr/dsp/biquad_design.hpp
@@ -42,15 +42,17 @@ inline namespace CMT_ARCH_NAME
 template <typename T = fbase>
 KFR_FUNCTION biquad_section<T> biquad_allpass(identity<T> frequency, identity<T> Q)
 {
-    const T alpha = std::sin(frequency) / 2.0 * Q;
-    const T cs    = std::cos(frequency);
-
-    const T b0 = 1.0 / (1.0 + alpha);
-    const T b1 = -2.0 * cs * b0;
-    const T b2 = (1.0 - alpha) * b0;
-    const T a0 = (1.0 - alpha) * b0;
-    const T a1 = -2.0 * cs * b0;
-    const T a2 = (1.0 + alpha) * b0;
+    const T w     = c_pi<T, 2> * frequency;
+    const T alpha = std::sin(w) / (2 * Q);
+    const T cs    = std::cos(w);
+
+    const T norm = 1 / (1 + alpha);
+    const T b0   = 1;
+    const T b1   = -2 * cs * norm;
+    const T b2   = (1 - alpha) * norm;
+    const T a0   = b2;
+    const T a1   = b1;
+    const T a2   = b0;
     return { b0, b1, b2, a0, a1, a2 };
 }
 
-- 
2.43.0


From 3b67f97c93d4069e31bae65e817b900609e2929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 82/94] fix: Chebyshev prototypes are computed in the precision
 asked for

---
 include/kfr/dsp/iir_design.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index fe3e076..e8219b8 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -60,7 +60,7 @@ KFR_FUNCTION zpk<T> chebyshev1(int N, identity<T> rp)
     T eps = sqrt(exp10(T(0.1) * rp) - T(1.0));
     T mu  = T(1.0) / N * std::asinh(1 / eps);
 
-    univector<T> m = linspace(-N + 1, N + 1, N, false, ctrue);
+    univector<T> m = linspace(T(-N + 1), T(N + 1), N, false, ctrue);
 
     univector<T> theta      = c_pi<T> * m / (2 * N);
     univector<complex<T>> p = -csinh(make_complex(mu, theta));
@@ -85,17 +85,18 @@ KFR_FUNCTION zpk<T> chebyshev2(int N, identity<T> rs)
 
     if (N % 2)
     {
-        m = concatenate(linspace(-N + 1, -2, N / 2, true, ctrue), linspace(2, N - 1, N / 2, true, ctrue));
+        m = concatenate(linspace(T(-N + 1), T(-2), N / 2, true, ctrue),
+                        linspace(T(2), T(N - 1), N / 2, true, ctrue));
     }
     else
     {
-        m = linspace(-N + 1, N + 1, N, false, ctrue);
+        m = linspace(T(-N + 1), T(N + 1), N, false, ctrue);
     }
 
     univector<complex<T>> z = -cconj(complex<T>(0, 1) / sin(m * c_pi<T> / (T(2.0) * N)));
 
     univector<complex<T>> p =
-        -cexp(complex<T>(0, 1) * c_pi<T> * linspace(-N + 1, N + 1, N, false, ctrue) / (2 * N));
+        -cexp(complex<T>(0, 1) * c_pi<T> * linspace(T(-N + 1), T(N + 1), N, false, ctrue) / (2 * N));
     p = make_complex(sinh(mu) * real(p), cosh(mu) * imag(p));
     p = T(1.0) / p;
 
-- 
2.43.0


From 0fcc6ab8a7303f82b497e8a84ff60007a5a85301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 83/94] fix: second order sections of a mere gain have that
 gain

---
 include/kfr/dsp/iir_design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index e8219b8..547f792 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -1114,7 +1114,7 @@ template <typename T>
 KFR_FUNCTION iir_params<T> to_sos(const zpk<T>& filter)
 {
     if (filter.p.empty() && filter.z.empty())
-        return { biquad_section<T>(filter.k, T(0.), T(0.), T(1.), T(0.), 0) };
+        return { biquad_section<T>(T(1.), T(0.), T(0.), filter.k, T(0.), T(0.)) };
 
     zpk<T> filt   = filter;
     size_t length = std::max(filter.p.size(), filter.z.size());
-- 
2.43.0


From b1c0050e04634f46792129d9d8f486c5f7eeb3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 84/94] fix: to_sos pairs conjugates that share a real part and
 picks poles and zeros by their index in the full list

---
 include/kfr/dsp/iir_design.hpp | 55 +++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index 547f792..501b434 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -903,15 +903,19 @@ KFR_FUNCTION univector<complex<T>> cplxreal(const univector<complex<T>>& list)
               [](const complex<T>& a, const complex<T>& b) { return a.real() < b.real(); });
     T tol                        = std::numeric_limits<T>::epsilon() * 100;
     univector<complex<T>> result = x;
-    for (size_t i = result.size(); i > 1; i--)
+    for (size_t i = 0; i < result.size(); i++)
     {
-        if (!isreal(result[i - 1]) && !isreal(result[i - 2]))
+        if (isreal(result[i]))
+            continue;
+        // several pairs may share the real part, so the conjugate is not always the next one
+        for (size_t j = i + 1; j < result.size(); j++)
         {
-            if (abs(result[i - 1].real() - result[i - 2].real()) < tol &&
-                abs(result[i - 1].imag() + result[i - 2].imag()) < tol)
+            if (!isreal(result[j]) && abs(result[i].real() - result[j].real()) < tol &&
+                abs(result[i].imag() + result[j].imag()) < tol)
             {
-                result.erase(result.begin() + i - 1);
-                result[i - 2].imag(abs(result[i - 2].imag()));
+                result.erase(result.begin() + j);
+                result[i].imag(abs(result[i].imag()));
+                break;
             }
         }
     }
@@ -922,29 +926,20 @@ template <typename T>
 KFR_FUNCTION size_t nearest_real_or_complex(const univector<complex<T>>& list, const complex<T>& val,
                                             bool mustbereal = true)
 {
-    univector<complex<T>> filtered;
-    for (complex<T> v : list)
+    size_t minidx = std::numeric_limits<size_t>::max();
+    T minval      = 0;
+    for (size_t i = 0; i < list.size(); i++)
     {
-        if (isreal(v) == mustbereal)
-        {
-            filtered.push_back(v);
-        }
-    }
-    TESTO_ASSERT(!filtered.empty());
-    if (filtered.empty())
-        return std::numeric_limits<size_t>::max();
-
-    size_t minidx = 0;
-    T minval      = cabs(val - filtered[0]);
-    for (size_t i = 1; i < filtered.size(); i++)
-    {
-        T newminval = cabs(val - filtered[i]);
-        if (newminval < minval)
+        if (isreal(list[i]) != mustbereal)
+            continue;
+        T newminval = cabs(val - list[i]);
+        if (minidx == std::numeric_limits<size_t>::max() || newminval < minval)
         {
             minval = newminval;
             minidx = i;
         }
     }
+    TESTO_ASSERT(minidx != std::numeric_limits<size_t>::max());
     return minidx;
 }
 
@@ -1203,23 +1198,27 @@ KFR_FUNCTION iir_params<T> to_sos(const zpk<T>& filter)
                 if (!isreal(z1))
                 {
                     z2     = cconj(z1);
-                    p2_idx = internal::nearest_real_or_complex(filt.z, p1, true);
+                    p2_idx = internal::nearest_real_or_complex(filt.p, p1, true);
                     p2     = filt.p[p2_idx];
                     TESTO_ASSERT(isreal(p2));
                 }
                 else
                 {
-                    size_t worstidx = 0;
-                    T worstval      = abs(cabs(filt.p[0]) - 1);
-                    for (size_t i = 1; i < filt.p.size(); i++)
+                    // the second pole must be real too
+                    size_t worstidx = filt.p.size();
+                    T worstval      = 0;
+                    for (size_t i = 0; i < filt.p.size(); i++)
                     {
+                        if (!isreal(filt.p[i]))
+                            continue;
                         T val = abs(cabs(filt.p[i]) - 1);
-                        if (val < worstval)
+                        if (worstidx == filt.p.size() || val < worstval)
                         {
                             worstidx = i;
                             worstval = val;
                         }
                     }
+                    TESTO_ASSERT(worstidx < filt.p.size());
                     p2_idx = worstidx;
                     p2     = filt.p[p2_idx];
 
-- 
2.43.0


From f2262c7897afc55bd73a65081e80fc4e70181a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:52 +0000
Subject: [PATCH 85/94] fix: saturate_I accepts expressions

---
 include/kfr/dsp/waveshaper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/dsp/waveshaper.hpp b/include/kfr/dsp/waveshaper.hpp
index ed8053d..719d70f 100644
--- a/include/kfr/dsp/waveshaper.hpp
+++ b/include/kfr/dsp/waveshaper.hpp
@@ -64,7 +64,7 @@ KFR_FUNCTION flt_type<T1> saturate_II(const T1& x)
 KFR_FN(saturate_II)
 
 template <typename E1, KFR_ACCEPT_EXPRESSIONS(E1)>
-KFR_FUNCTION expression_function<fn::saturate_II, E1> saturate_I(E1&& x)
+KFR_FUNCTION expression_function<fn::saturate_I, E1> saturate_I(E1&& x)
 {
     return { fn::saturate_I(), std::forward<E1>(x) };
 }
-- 
2.43.0


From f6207cc774c5597f806537957da908560b77346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:52 +0000
Subject: [PATCH 86/94] fix: dB_to_power accepts vectors and expressions

---
 include/kfr/dsp/units.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/kfr/dsp/units.hpp b/include/kfr/dsp/units.hpp
index 83c397c..5dd6538 100644
--- a/include/kfr/dsp/units.hpp
+++ b/include/kfr/dsp/units.hpp
@@ -86,10 +86,7 @@ KFR_INTRINSIC Tout power_to_dB(const T& x)
 template <typename T, typename Tout = flt_type<T>>
 KFR_INTRINSIC Tout dB_to_power(const T& x)
 {
-    if (CMT_UNLIKELY(x == -c_infinity<Tout>))
-        return 0.0;
-    else
-        return exp(x * (c_log_10<Tout> / 10.0));
+    return select(x == -c_infinity<Tout>, Tout(0), exp(static_cast<Tout>(x) * (c_log_10<Tout> / 10)));
 }
 
 template <typename T, typename TF = flt_type<T>>
-- 
2.43.0


From 1ed3a3623d84b9c1d6821a6bdc1eeae1f4254849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 87/94] fix: tanh and coth of large arguments are one, not NaN

---
 include/kfr/math/impl/hyperbolic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/hyperbolic.hpp b/include/kfr/math/impl/hyperbolic.hpp
index bd1841d..64b05c6 100644
--- a/include/kfr/math/impl/hyperbolic.hpp
+++ b/include/kfr/math/impl/hyperbolic.hpp
@@ -56,14 +56,14 @@ template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> tanh(const vec<T, N>& x)
 {
     const vec<Tout, N> a = exp(2 * x);
-    return (a - 1) / (a + 1);
+    return select(a == constants<Tout>::infinity, Tout(1), (a - 1) / (a + 1));
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> coth(const vec<T, N>& x)
 {
     const vec<Tout, N> a = exp(2 * x);
-    return (a + 1) / (a - 1);
+    return select(a == constants<Tout>::infinity, Tout(1), (a + 1) / (a - 1));
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
-- 
2.43.0


From 1f2a6720a59b87781819fa3d3f71c4c37d5d056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 88/94] fix: atan2 of infinite arguments and of a negative zero

---
 include/kfr/math/impl/atan.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/atan.hpp b/include/kfr/math/impl/atan.hpp
index 9a783b4..9e8e562 100644
--- a/include/kfr/math/impl/atan.hpp
+++ b/include/kfr/math/impl/atan.hpp
@@ -111,8 +111,8 @@ KFR_INTRINSIC vec<f32, N> atan2(const vec<f32, N>& y, const vec<f32, N>& x)
     constexpr f32 pi_over_2 = 1.5707963267948966192313216916398f;
     constexpr f32 pi_over_4 = 0.78539816339744830961566084581988f;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0f), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0f), r);
+    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0f), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0f), r);
     r = select(y == 0.0f, select(x < 0.f, pi, 0.f), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
@@ -126,8 +126,8 @@ KFR_INTRINSIC vec<f64, N> atan2(const vec<f64, N>& y, const vec<f64, N>& x)
     constexpr f64 pi_over_2 = 1.5707963267948966192313216916398;
     constexpr f64 pi_over_4 = 0.78539816339744830961566084581988;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0), r);
+    r = select(isinf(x) || x == 0.0, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0), r);
     r = select(y == 0.0, select(x < 0., pi, 0.), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
-- 
2.43.0


From ba3361d6abddcb72f739ec3e7d3e79276559e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 89/94] fix: log of infinity and NaN, pow with a zero base or
 exponent

---
 include/kfr/math/impl/log_exp.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 8163aa2..c71a764 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -97,7 +97,7 @@ KFR_INTRINSIC vec<f32, N> log(const vec<f32, N>& d)
     vec<f32, N> x  = (m - 1.0f) / (m + 1.0f);
     vec<f32, N> x2 = x * x;
 
-    vec<f32, N> sp = select(d < 0, constants<f32>::qnan, constants<f32>::neginfinity);
+    vec<f32, N> sp = select(d == 0, constants<f32>::neginfinity, constants<f32>::qnan);
 
     vec<f32, N> t;
     t = fmadd(0.2371599674224853515625f, x2, 0.285279005765914916992188f);
@@ -106,7 +106,7 @@ KFR_INTRINSIC vec<f32, N> log(const vec<f32, N>& d)
     t = fmadd(t, x2, 2.0f);
 
     x = x * t + c_log_2<f32> * broadcastto<f32>(e);
-    x = select(d > 0, x, sp);
+    x = select(d > 0, select(d == constants<f32>::infinity, d, x), sp);
 
     return x;
 }
@@ -120,7 +120,7 @@ KFR_INTRINSIC vec<f64, N> log(const vec<f64, N>& d)
     vec<f64, N> x  = (m - 1.0) / (m + 1.0);
     vec<f64, N> x2 = x * x;
 
-    vec<f64, N> sp = select(d < 0, constants<f64>::qnan, constants<f64>::neginfinity);
+    vec<f64, N> sp = select(d == 0, constants<f64>::neginfinity, constants<f64>::qnan);
 
     vec<f64, N> t;
     t = fmadd(0.148197055177935105296783, x2, 0.153108178020442575739679);
@@ -132,7 +132,7 @@ KFR_INTRINSIC vec<f64, N> log(const vec<f64, N>& d)
     t = fmadd(t, x2, 2);
 
     x = x * t + constants<f64>::log_2 * broadcastto<f64>(e);
-    x = select(d > 0, x, sp);
+    x = select(d > 0, select(d == constants<f64>::infinity, d, x), sp);
 
     return x;
 }
@@ -239,8 +239,10 @@ KFR_INTRINSIC vec<T, N> pow(const vec<T, N>& a, const vec<T, N>& b)
     const mask<T, N> isint  = floor(b) == b;
     const mask<T, N> iseven = (broadcastto<itype<T>>(b) & 1) == 0;
     return select(
-        a > T(), t,
-        select(a == T(), T(), select(isint, select(iseven, t, -t), broadcast<N>(constants<T>::qnan))));
+        b == T(), T(1),
+        select(a > T(), t,
+               select(a == T(), select(b > T(), T(), select(b < T(), constants<T>::infinity, b)),
+                      select(isint, select(iseven, t, -t), broadcast<N>(constants<T>::qnan)))));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 158f47f461ac306780fcfc2888a2b011b4989cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:28 +0000
Subject: [PATCH 90/94] fix: fastcos compiles

---
 include/kfr/math/impl/sin_cos.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/kfr/math/impl/sin_cos.hpp b/include/kfr/math/impl/sin_cos.hpp
index 7065169..65f4008 100644
--- a/include/kfr/math/impl/sin_cos.hpp
+++ b/include/kfr/math/impl/sin_cos.hpp
@@ -215,9 +215,8 @@ KFR_INTRINSIC vec<T, N> fastsin(const vec<T, N>& x)
 template <typename T, size_t N, KFR_ENABLE_IF(is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> fastcos(const vec<T, N>& x)
 {
-    x += c_pi<T, 1, 2>;
-    x = select(x >= c_pi<T, 2>, x - c_pi<T, 2>, x);
-    return fastsin(x);
+    const vec<T, N> xx = x + c_pi<T, 1, 2>;
+    return fastsin(select(xx >= c_pi<T, 2>, xx - c_pi<T, 2>, xx));
 }
 
 template <typename T, size_t N, KFR_ENABLE_IF(N > 1 && is_f_class<T>)>
-- 
2.43.0


From 1d505283f2a4f6d09f057d98355270101ff4404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:28 +0000
Subject: [PATCH 91/94] fix: cubic and catmullrom evaluate their polynomial
 with the coefficients in order

---
 include/kfr/math/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/interpolation.hpp b/include/kfr/math/interpolation.hpp
index 180a4a3..4f80dd6 100644
--- a/include/kfr/math/interpolation.hpp
+++ b/include/kfr/math/interpolation.hpp
@@ -78,7 +78,7 @@ KFR_FUNCTION T cubic(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - x1 - a0;
     const T a2 = x2 - x0;
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 /**
@@ -93,7 +93,7 @@ KFR_FUNCTION T catmullrom(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - T(2.5) * x1 + T(2) * x2 - T(0.5) * x3;
     const T a2 = T(0.5) * (x2 - x0);
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From fed0ca97b943a4e7b0c7af3a12c50f78aec1dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:28 +0000
Subject: [PATCH 92/94] fix: nearest accepts a scalar position

---
 include/kfr/math/interpolation.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/kfr/math/interpolation.hpp b/include/kfr/math/interpolation.hpp
index 4f80dd6..b3b313b 100644
--- a/include/kfr/math/interpolation.hpp
+++ b/include/kfr/math/interpolation.hpp
@@ -41,7 +41,10 @@ inline namespace CMT_ARCH_NAME
 template <typename T, typename M>
 KFR_FUNCTION T nearest(M mu, T x1, T x2)
 {
-    return select(mu < M(0.5), x1, x2);
+    if constexpr (std::is_arithmetic_v<M>)
+        return mu < M(0.5) ? x1 : x2;
+    else
+        return select(mu < M(0.5), x1, x2);
 }
 
 /**
-- 
2.43.0


From ee52499671e94c2d3e7784091c9a47666e04ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:35 +0000
Subject: [PATCH 93/94] fix: cartesian scales by the radius instead of
 multiplying by (1 + i) times it

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index 989edb6..b9519e8 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -122,7 +122,7 @@ KFR_INTRINSIC vec<complex<T>, N> polar(const vec<complex<T>, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> cartesian(const vec<complex<T>, N>& x)
 {
-    return cdupreal(x) * ccomp(cossin(cdecom(cdupimag(x))));
+    return ccomp(cdecom(cdupreal(x)) * cossin(cdecom(cdupimag(x))));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From eb433e3797113c714549f493c52a577b714803ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:35 +0000
Subject: [PATCH 94/94] fix: exp of arguments far out of range is zero or
 infinity

---
 include/kfr/math/impl/log_exp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index c71a764..dc2706d 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -176,7 +176,7 @@ KFR_INTRINSIC vec<f32, N> exp(const vec<f32, N>& d)
     u = s * s * u + s + 1.0f;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f32>::neginfinity, 0.f, u);
+    u = select(d < -104.f, 0.f, select(d > 104.f, constants<f32>::infinity, u));
 
     return u;
 }
@@ -217,7 +217,7 @@ KFR_INTRINSIC vec<f64, N> exp(const vec<f64, N>& d)
     u = s * s * u + s + 1.0;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f64>::neginfinity, 0.0, u);
+    u = select(d < -1000.0, 0.0, select(d > 1000.0, constants<f64>::infinity, u));
 
     return u;
 }
-- 
2.43.0

