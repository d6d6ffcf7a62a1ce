From 6bc78e1fd7ec0da4f5aa51b6dac76eb9993a7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 01/87] fix: OBJECT IDENTIFIERs with a long first
 subidentifier, component_number and malformed contents

The first two components share one subidentifier, which can take several octets under arc 2 (X.690 8.19.4).
component_number() returned zero for every component after the second and read beyond the content.
Illegal component lists and malformed contents are refused.
---
 .../fast_ber/ber_types/ObjectIdentifier.hpp   | 109 +++++++++---------
 1 file changed, 56 insertions(+), 53 deletions(-)

diff --git a/include/fast_ber/ber_types/ObjectIdentifier.hpp b/include/fast_ber/ber_types/ObjectIdentifier.hpp
index 3033164..9042b37 100644
--- a/include/fast_ber/ber_types/ObjectIdentifier.hpp
+++ b/include/fast_ber/ber_types/ObjectIdentifier.hpp
@@ -7,6 +7,9 @@
 #include "absl/container/inlined_vector.h"
 #include "absl/types/span.h"
 
+#include <algorithm>
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -56,21 +59,37 @@ class ObjectIdentifier
 
     using AsnId = Identifier;
 
+    template <typename Identifier2>
+    friend class ObjectIdentifier;
+
   private:
     FixedIdBerContainer<Identifier> m_contents;
 };
 
+inline bool is_legal_object_id(const ObjectIdentifierComponents& input) noexcept
+{
+    return input.size() >= 2 && input[0] <= 2 && (input[0] == 2 || input[1] < 40) &&
+           input[1] <= std::numeric_limits<int64_t>::max() - 80 &&
+           std::all_of(input.begin(), input.end(), [](int64_t component) { return component >= 0; });
+}
+
+// Subidentifier number i (starting at one). The first one holds the first two components, see X690 Clause 8.19.4
+inline int64_t get_subidentifier(const ObjectIdentifierComponents& input, size_t i) noexcept
+{
+    return (i == 1) ? 40 * input[0] + input[1] : input[i];
+}
+
 inline size_t encoded_object_id_length(const ObjectIdentifierComponents& input) noexcept
 {
-    if (input.size() < 2)
+    if (!is_legal_object_id(input))
     {
         return 0;
     }
 
-    size_t output_size = 1;
-    for (size_t i = 2; i < input.size(); i++)
+    size_t output_size = 0;
+    for (size_t i = 1; i < input.size(); i++)
     {
-        int64_t component = input[i];
+        int64_t component = get_subidentifier(input, i);
         do
         {
             output_size++;
@@ -88,21 +107,15 @@ inline EncodeResult encode_object_id(absl::Span<uint8_t> output, const ObjectIde
         encoded_length = encoded_object_id_length(input);
     }
 
-    if (output.empty() || output.size() < encoded_length || input.size() < 2 || input[0] > 2 || input[1] > 39)
+    if (output.empty() || output.size() < encoded_length || !is_legal_object_id(input))
     {
         return EncodeResult{false, 0};
     }
 
-    output[0] = static_cast<uint8_t>(40 * input[0] + input[1]);
-
     size_t output_write_pos = encoded_length - 1;
-    for (size_t i = input.size() - 1; i > 1; i--)
+    for (size_t i = input.size() - 1; i > 0; i--)
     {
-        int64_t component = input[i];
-        if (component < 0)
-        {
-            return EncodeResult{false, 0};
-        }
+        int64_t component = get_subidentifier(input, i);
 
         bool first = true;
         do
@@ -137,58 +150,42 @@ inline DecodeResult decode_object_id(absl::Span<const uint8_t> input, absl::Inli
         return DecodeResult{false};
     }
 
-    output.push_back(input[0] / 40);
-    output.push_back(input[0] % 40);
-
-    for (size_t i = 1, current_num = 0; i < input.length(); i++)
+    int64_t current_num = 0;
+    for (size_t i = 0; i < input.length(); i++)
     {
-        current_num += 0x7F & input[i];
-        if (0x80 & input[i])
+        if (current_num > std::numeric_limits<int64_t>::max() / 0x80)
         {
-            current_num *= 0x80;
+            return DecodeResult{false};
         }
-        else
+
+        current_num = current_num * 0x80 + (0x7F & input[i]);
+        if (!(0x80 & input[i]))
         {
+            if (output.empty())
+            {
+                // The first subidentifier holds two components, see X690 Clause 8.19.4
+                output.push_back(std::min<int64_t>(current_num / 40, 2));
+                current_num -= 40 * output[0];
+            }
             output.push_back(current_num);
             current_num = 0;
         }
     }
 
+    if (0x80 & input.back())
+    {
+        return DecodeResult{false};
+    }
+
     return DecodeResult{true};
 }
 
 inline int64_t get_component_number(absl::Span<const uint8_t> input, size_t number_of_component_to_extract) noexcept
 {
-    if (input.empty())
-    {
-        return -1;
-    }
-
-    if (number_of_component_to_extract == 0)
+    ObjectIdentifierComponents components;
+    if (decode_object_id(input, components).success && number_of_component_to_extract < components.size())
     {
-        return input[0] / 40;
-    }
-    if (number_of_component_to_extract == 1)
-    {
-        return input[1] % 40;
-    }
-
-    for (size_t i = 1, current_num = 0, current_component_number = 2; i < static_cast<size_t>(input.length()); i++)
-    {
-        current_num += 0x7F & input[i];
-        if (0x80 & input[i])
-        {
-            current_num *= 0x80;
-        }
-        else
-        {
-            current_num = 0;
-            if (current_component_number == number_of_component_to_extract)
-            {
-                return current_num;
-            }
-            current_component_number++;
-        }
+        return components[number_of_component_to_extract];
     }
 
     return -1;
@@ -201,8 +198,8 @@ inline size_t get_number_of_components(absl::Span<const uint8_t> input) noexcept
         return 0;
     }
 
-    size_t number_of_components = 2;
-    for (size_t i = 1; i < input.length(); i++)
+    size_t number_of_components = 1;
+    for (size_t i = 0; i < input.length(); i++)
     {
         if (!(0x80 & input[i]))
         {
@@ -299,7 +296,13 @@ EncodeResult ObjectIdentifier<Identifier>::encode(absl::Span<uint8_t> output) co
 template <typename Identifier>
 DecodeResult ObjectIdentifier<Identifier>::decode(BerView input) noexcept
 {
-    return this->m_contents.decode(input);
+    DecodeResult res = this->m_contents.decode(input);
+    if (res.success && m_contents.content_length() > 0)
+    {
+        ObjectIdentifierComponents components;
+        return decode_object_id(m_contents.content(), components);
+    }
+    return res;
 }
 
 } // namespace fast_ber
-- 
2.43.0


From b38f85c15637505829792462fa423320486135ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 02/87] fix: decode binary REALs exactly, and refuse contents
 which are not a REAL

Exponents of more than one octet were misread, shift counts could loop for ever or be undefined, mantissas of more
than 53 bits were truncated, three octet contents and padded short exponents refused (X.690 8.5.7).
---
 include/fast_ber/ber_types/Real.hpp | 231 ++++++----------------------
 1 file changed, 45 insertions(+), 186 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 794e3e9..94a5f14 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -76,7 +76,7 @@ inline bool check_real_binary(absl::Span<const uint8_t> input) noexcept
     /* Minimal binary construction is: | control | exponent | number |  => length is 3 bytes minimum
      * Check that base bits are not set to the reserved value, see X690 Clause 8.5.7.4
      * */
-    if (input.length() > 3 && (input[0] & 0x30) != 0x30)
+    if (input.length() >= 3 && (input[0] & 0x30) != 0x30)
     {
         /* X690 Clause 8.5.7.4 */
         size_t exponent_len    = (input[0] & 0x03) + 1;
@@ -97,8 +97,8 @@ inline bool check_real_binary(absl::Span<const uint8_t> input) noexcept
             return false;
         }
 
-        /* Check that the exponent does not start with 9 identical bits */
-        if (exponent_len > 1)
+        /* X690 Clause 8.5.7.4.d: Check that the exponent does not start with 9 identical bits */
+        if (exponent_offset == 2 && exponent_len > 1)
         {
             uint8_t first_byte  = input[exponent_offset];
             uint8_t second_byte = input[exponent_offset + 1];
@@ -221,214 +221,67 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
         exponent_offset = 2;
     }
 
-    /* Verify that the exponent fits into an int */
-    if (exponent_len > sizeof(int))
-    {
-        return false;
-    }
-
-    /* Get exponent sign */
-    int exponent = (input[exponent_offset] & 0x80) ? -1 : 0;
-
     /* X690 Clause 8.5.7.1 */
-    int mantissa_sign = ((input[0] & 0x40) >> 6) & 0x01;
+    const bool negative = (input[0] & 0x40) != 0;
 
-    /* X690 Clause 8.5.7.2 */
-    int base = (input[0] & 0x30) >> 4;
+    /* X690 Clause 8.5.7.2: base 2, 8 or 16 */
+    const int base_bits = (input[0] & 0x30) == 0x00 ? 1 : (input[0] & 0x30) == 0x10 ? 3 : 4;
 
     /* X690 Clause 8.5.7.3 */
-    int factor = (input[0] & 0x0C) >> 2;
+    const int factor = (input[0] & 0x0C) >> 2;
 
-    /* Read exponent */
-    for (size_t i = 0; i < exponent_offset; ++i)
+    /* Read the signed exponent, limited to a range which is well beyond that of a double */
+    constexpr int64_t exponent_limit = 0xFFFFFFFF;
+    int64_t           exponent       = (input[exponent_offset] & 0x80) ? -1 : 0;
+    for (size_t i = 0; i < exponent_len; ++i)
     {
-        exponent = (exponent << 8) | input[exponent_offset + i];
+        exponent = exponent * 0x100 + input[exponent_offset + i];
+        exponent = std::max(-exponent_limit, std::min(exponent_limit, exponent));
     }
+    exponent = exponent * base_bits + factor;
 
-    /* Convert base 8 exponent to base 2 */
-    if (base == 1)
+    /* Read the mantissa. Octets which do not fit have no influence besides breaking ties when rounding */
+    uint64_t mantissa = 0;
+    for (size_t i = exponent_offset + exponent_len; i < input.length(); ++i)
     {
-        if (exponent > 0 ? exponent <= std::numeric_limits<int>::max() / 3
-                         : exponent >= std::numeric_limits<int>::min() / 3)
+        if (mantissa >> 56 == 0)
         {
-            exponent *= 3;
+            mantissa = mantissa << 8 | input[i];
         }
         else
         {
-            return false;
-        }
-    }
-    /* Convert base 16 exponent to base 2 */
-    if (base == 2)
-    {
-        if (exponent > 0 ? exponent <= std::numeric_limits<int>::max() / 4
-                         : exponent >= std::numeric_limits<int>::min() / 4)
-        {
-            exponent *= 4;
-        }
-        else
-        {
-            return false;
+            mantissa |= input[i] != 0;
+            exponent += 8;
         }
     }
 
-    /* Apply binary factor */
-    if (exponent <= (std::numeric_limits<int>::max() - factor))
-    {
-        exponent += factor;
-    }
-    else
+    /* Normalise the mantissa to 64 bits */
+    while (mantissa >> 63 == 0)
     {
-        return false;
+        mantissa <<= 1;
+        exponent--;
     }
 
-    /* If exponent overflows, check */
-    if (exponent < -0xFFFFFF || exponent > 0xFFFFFF)
+    /* Round to the 53 bits of a double, or less for a denormalized value */
+    const int64_t excess_bits = 11 + std::max<int64_t>(0, -1022 - 63 - exponent);
+    if (excess_bits > 64)
     {
-        /* Exponent too large for a double */
-        if (exponent >= 0)
-        {
-            output =
-                mantissa_sign == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
-        }
-        /* Exponent too small for a double */
-        else
-        {
-            output = mantissa_sign == 0 ? 0.0 : -0.0;
-        }
-
-        return true;
-    }
-
-    /* Get Mantissa into a buffer
-     * One more byte is read because there could be a 3 or 4 bits shift, see X690 Clause 8.5.7
-     * */
-    std::array<uint8_t, 9> double_bytes    = {};
-    size_t                 mantissa_offset = exponent_len + exponent_offset;
-    size_t                 mantissa_len    = input.length() - mantissa_offset;
-
-    /* Skip leading zeros */
-    while (mantissa_len > 1 && input[mantissa_offset] == 0)
-    {
-        mantissa_offset++;
-        mantissa_len--;
-    }
-
-    /* Put mantissa into bytes 1 to 7 and adapt the exponent */
-    for (size_t i = 0; i < 8; i++)
-    {
-        if (i < mantissa_len)
-        {
-            double_bytes[i + 1] = input[mantissa_offset + i];
-        }
-    }
-
-    /* IEEE 754 double format is: | 1 bit Sign | 11 bits exponent | 52 bits mantissa |
-     * Exponent bias is 2^(k-1) - 1 where k = exponent size in bits. Here bias = 1023
-     * Add mantissa size to the bias to get an exponent corresponding to the mantissa
-     * bias = 1023 + 52 = 1075
-     * */
-    exponent += ((mantissa_len - 7) << 3) + 1075;
-
-    /* For a normalized value, the mantissa size is 52 bits with an implicit hidden bit which equals 1
-     * Set double_bytes to have b0001 in the first 4 bits of the first double byte
-     * See X690 Clause 8.5.7 */
-    if ((double_bytes[1] & 0xE0) != 0 && exponent < 0x7FF)
-    {
-        /* Mantissa is too big - shift right up to 3 bits */
-        int          shift      = 0;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xE0) != 0 && exponent < (0x7FF - shift))
-        {
-            first_byte >>= 1;
-            shift++;
-        }
-        exponent += shift;
-
-        /* Adapt double bytes */
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-    }
-    else if ((double_bytes[1] & 0xF0) == 0 && exponent > 0)
-    {
-        /* Mantissa is too small - shift left up to 4 bits */
-        int          shift      = 8;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xF0) == 0 && exponent > (8 - shift))
-        {
-            exponent -= 8 - shift;
-        }
-
-        for (int j = 1; j < 8; ++j)
-        {
-            unsigned int first_byte_shifted = static_cast<unsigned int>(double_bytes[j]) << 8;
-            double_bytes[j]                 = (first_byte_shifted | double_bytes[j + 1]) >> shift;
-        }
-    }
-
-    /* Verify that exponent does not overflow after modification */
-    if (exponent >= 0x7FF || exponent <= -55)
-    {
-        /* Exponent too large for a double */
-        if (exponent >= 0)
-        {
-            output =
-                mantissa_sign == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
-        }
-        else
-        {
-            /* Exponent too small for a double */
-            output = mantissa_sign == 0 ? 0.0 : -0.0;
-        }
-
-        return true;
+        output = 0.0;
     }
-
-    /* Normalize the value if necessary */
-    if (exponent <= 0)
+    else
     {
-        /* correct the exponent to shift one bit more right */
-        --exponent;
-
-        /* Shift the mantissa right until exponent is 0 */
-        int shift = (-exponent) >> 3;
-        for (int j = 7; j > shift; --j)
-        {
-            double_bytes[j] = double_bytes[j - shift];
-        }
-        for (int j = shift; j > 0; --j)
-        {
-            double_bytes[j] = 0;
-        }
-        /* shift right bit by bit */
-        shift = -exponent & 0x07;
-        for (int j = 7; j > 0; --j)
+        const uint64_t half      = uint64_t{1} << 63;
+        const uint64_t remainder = mantissa << (64 - excess_bits);
+        uint64_t       rounded   = (excess_bits < 64) ? mantissa >> excess_bits : 0;
+        if (remainder > half || (remainder == half && (rounded & 1) != 0))
         {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
+            rounded++;
         }
-
-        /* exponent for a denormalized value */
-        exponent = 0;
+        output = std::ldexp(static_cast<double>(rounded),
+                            static_cast<int>(std::min<int64_t>(exponent + excess_bits, 0xFFFF)));
     }
 
-    /* Finally add the mantissa sign and the exponent to the double bytes */
-    double_bytes[0] = (mantissa_sign << 7) | (exponent >> 4);
-    double_bytes[1] = (exponent << 4) | (double_bytes[1] & 0x0F);
-
-#ifdef ABSL_IS_LITTLE_ENDIAN
-    /* Reverse bytes if needed */
-    std::reverse(double_bytes.begin(), double_bytes.end() - 1);
-#endif
-
-    memcpy(&output, double_bytes.data(), sizeof(double));
+    output = negative ? -output : output;
     return true;
 }
 
@@ -637,7 +490,13 @@ EncodeResult Real<Identifier>::encode(absl::Span<uint8_t> output) const noexcept
 template <typename Identifier>
 DecodeResult Real<Identifier>::decode(BerView input) noexcept
 {
-    return m_contents.decode(input);
+    DecodeResult res = m_contents.decode(input);
+    double       value;
+    if (res.success && !decode_real(m_contents.content(), value))
+    {
+        return DecodeResult{false};
+    }
+    return res;
 }
 
 template <typename Identifier>
-- 
2.43.0


From 0437c5c998368689f8e070575c1fd21178edcc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 03/87] fix: an infinite REAL equals no finite one

---
 include/fast_ber/ber_types/Real.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 94a5f14..97e79cf 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -461,9 +461,9 @@ inline bool Real<Identifier>::operator==(const Real& rhs) const noexcept
 
     /* According to https://www.gnu.org/software/libc/manual/html_node/Infinity-and-NaN.html
      * In comparison operations, positive infinity is larger than all values except itself and NaN */
-    if (std::isinf(lhs_value) && std::isinf(rhs_value))
+    if (std::isinf(lhs_value) || std::isinf(rhs_value))
     {
-        return std::signbit(lhs_value) == std::signbit(rhs_value);
+        return lhs_value == rhs_value;
     }
 
     if (std::abs(lhs_value - rhs_value) <= std::numeric_limits<double>::epsilon())
-- 
2.43.0


From 5512ffc98ed5cbc71c657c59ebb68465d5401146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 04/87] fix: a tag number which does not fit a Tag overflowed

---
 include/fast_ber/util/Extract.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fast_ber/util/Extract.hpp b/include/fast_ber/util/Extract.hpp
index dda9838..c3409d3 100644
--- a/include/fast_ber/util/Extract.hpp
+++ b/include/fast_ber/util/Extract.hpp
@@ -6,6 +6,8 @@
 
 #include "absl/types/span.h"
 
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -99,6 +101,11 @@ inline size_t extract_tag(absl::Span<const uint8_t> input, Tag& tag) noexcept
                 return i + 1;
             }
 
+            if (tag > std::numeric_limits<Tag>::max() / 0x80)
+            {
+                return 0;
+            }
+
             tag *= 0x80;
         }
         return 0;
-- 
2.43.0


From b4e1dba04bc894852f271260c6a1a7dd37d99aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 05/87] fix: a length close to the maximum wrapped and was
 taken for a short one

---
 include/fast_ber/util/BerView.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 4cd7590..0fb4099 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -195,12 +195,12 @@ inline void BerView::assign(absl::Span<const uint8_t> input_ber_data) noexcept
 {
     size_t input_content_length = 0;
 
-    size_t input_tag_length      = extract_tag(input_ber_data, m_tag);
-    size_t input_len_length      = extract_length(input_ber_data, input_content_length, input_tag_length);
-    size_t input_header_length   = input_tag_length + input_len_length;
-    size_t input_complete_length = input_header_length + input_content_length;
+    size_t input_tag_length     = extract_tag(input_ber_data, m_tag);
+    size_t input_len_length     = extract_length(input_ber_data, input_content_length, input_tag_length);
+    size_t input_header_length  = input_tag_length + input_len_length;
 
-    if (input_tag_length == 0 || input_len_length == 0 || input_complete_length > input_ber_data.length())
+    if (input_tag_length == 0 || input_len_length == 0 ||
+        input_content_length > input_ber_data.length() - input_header_length)
     {
         m_header_length  = 0;
         m_content_length = 0;
-- 
2.43.0


From 62e6094486d7ec2d6d4a862e8224a20f13e3af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 06/87] fix: identifier_length of a tag number with leading
 zeros

Resizing a BerContainer holding such a packet corrupted its header.
---
 include/fast_ber/util/BerView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 0fb4099..b34548b 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -40,7 +40,7 @@ class BerView
     RuntimeId    identifier() const { return {class_(), tag()}; }
     Class        class_() const noexcept { return get_class(m_data[0]); }
     Tag          tag() const noexcept { return m_tag; }
-    size_t       identifier_length() const noexcept { return encoded_tag_length(tag()); }
+    size_t       identifier_length() const noexcept { return extract_tag_length({m_data, m_header_length}); }
     size_t       header_length() const noexcept { return m_header_length; }
 
     absl::Span<const uint8_t> content() const noexcept { return absl::MakeSpan(content_data(), m_content_length); }
-- 
2.43.0


From 11d58ae0b568519815bfe2de86352b80d6a87069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 07/87] fix: BerContainers copied, moved from or resized while
 holding no packet

A moved from container kept a view of memory it no longer owned, a copy of an invalid one claimed to be valid.
---
 include/fast_ber/util/BerContainer.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index 09950d8..e148f89 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -100,15 +100,19 @@ inline BerContainer::BerContainer(Construction input_construction, Class input_c
 
 inline BerContainer& BerContainer::operator=(const BerContainer& container) noexcept
 {
-    m_data = container.m_data;
-    m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    if (this != &container)
+    {
+        decode(container.view());
+    }
     return *this;
 }
 
 inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
 {
-    m_data = std::move(container.m_data);
-    m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    if (this != &container)
+    {
+        decode(container.view());
+    }
     return *this;
 }
 
@@ -142,6 +146,11 @@ inline void BerContainer::assign_content(Construction input_construction, Class
 
 inline void BerContainer::resize_content(size_t size)
 {
+    if (!is_valid())
+    {
+        *this = BerContainer();
+    }
+
     std::array<uint8_t, 20> length_buffer{};
 
     size_t old_header_length   = view().header_length();
-- 
2.43.0


From 1740dd63dfba61464d0978f49a75d013b034e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 08/87] fix: a moved from FixedIdBerContainer kept the length
 of content it no longer held

---
 include/fast_ber/util/FixedIdBerContainer.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index 8c7fb03..d5cb052 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -66,6 +66,7 @@ class FixedIdBerContainer
     DecodeResult decode(BerView view) noexcept;
 
   private:
+    void clear() noexcept;
     template <Class class_1, Tag tag_1>
     DecodeResult decode_impl(BerView input_view, Id<class_1, tag_1>) noexcept;
     template <typename Identifier1, typename Identifier2>
@@ -77,9 +78,16 @@ class FixedIdBerContainer
 
 template <typename Identifier>
 FixedIdBerContainer<Identifier>::FixedIdBerContainer() noexcept : m_data()
+{
+    clear();
+}
+
+template <typename Identifier>
+void FixedIdBerContainer<Identifier>::clear() noexcept
 {
     m_data.resize(fast_ber::encoded_length(0, Identifier{}));
     encode_header(absl::Span<uint8_t>(m_data), 0, Identifier{}, Construction::primitive);
+    m_content_length = 0;
 }
 
 template <typename Identifier>
@@ -92,6 +100,7 @@ template <typename Identifier>
 FixedIdBerContainer<Identifier>::FixedIdBerContainer(FixedIdBerContainer&& rhs) noexcept
     : m_data(std::move(rhs.m_data)), m_content_length(std::move(rhs.m_content_length))
 {
+    rhs.clear();
 }
 
 template <typename Identifier>
@@ -147,8 +156,12 @@ template <typename Identifier1>
 FixedIdBerContainer<Identifier1>&
 FixedIdBerContainer<Identifier1>::operator=(FixedIdBerContainer<Identifier1>&& rhs) noexcept
 {
-    m_data           = std::move(rhs.m_data);
-    m_content_length = std::move(rhs.m_content_length);
+    if (this != &rhs)
+    {
+        m_data           = std::move(rhs.m_data);
+        m_content_length = std::move(rhs.m_content_length);
+        rhs.clear();
+    }
     return *this;
 }
 
-- 
2.43.0


From 43ac8842af51948111720f376ce3b3123ec794b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 09/87] fix: refuse data after the element inside an explicit
 tag

Its last octets were taken for the element's content.
---
 include/fast_ber/util/DecodeHelpers.hpp            | 3 ++-
 include/fast_ber/util/SmallFixedIdBerContainer.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DecodeHelpers.hpp b/include/fast_ber/util/DecodeHelpers.hpp
index 0b9a678..09f2aa9 100644
--- a/include/fast_ber/util/DecodeHelpers.hpp
+++ b/include/fast_ber/util/DecodeHelpers.hpp
@@ -43,7 +43,8 @@ bool has_correct_header(BerView input, DoubleId<Identifier1, Identifier2>, Const
 {
     return input.is_valid() && input.identifier() == Identifier1{} &&
            input.construction() == Construction::constructed && input.begin()->is_valid() &&
-           input.begin()->identifier() == Identifier2{} && input.begin()->construction() == construction;
+           input.begin()->identifier() == Identifier2{} && input.begin()->construction() == construction &&
+           input.begin()->ber_length() == input.content_length();
 }
 
 } // namespace fast_ber
diff --git a/include/fast_ber/util/SmallFixedIdBerContainer.hpp b/include/fast_ber/util/SmallFixedIdBerContainer.hpp
index 7fe0545..2373b87 100644
--- a/include/fast_ber/util/SmallFixedIdBerContainer.hpp
+++ b/include/fast_ber/util/SmallFixedIdBerContainer.hpp
@@ -152,6 +152,7 @@ SmallFixedIdBerContainer<Identifier, max_content_length>::decode_impl(const BerV
           input_view.construction() == Construction::constructed && input_view.begin()->is_valid() &&
           input_view.begin()->identifier() == Identifier2{} &&
           input_view.begin()->construction() == Construction::primitive &&
+          input_view.begin()->ber_length() == input_view.content_length() &&
           input_view.begin()->content_length() <= max_content_length))
     {
 
-- 
2.43.0


From 0dbf738ad176fbcbe470abde97a3abe2e4a8237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 10/87] fix: GeneralizedTime read text which is not a time, and
 local times as if they were UTC

format() and time() read outside of the contents after a failed decode or a move, and
absl::ParseTime accepts text (infinite-future, short fields, spaces) which is no GeneralizedTime.
---
 .../fast_ber/ber_types/GeneralizedTime.hpp    | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 5ffbe31..fcf5221 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -7,10 +7,13 @@
 #include "absl/strings/string_view.h"
 #include "absl/time/time.h"
 
+#include <algorithm>
+
 namespace fast_ber
 {
 constexpr const int minimum_timestamp_length = 10;
 constexpr const int max_timestamp_length     = 23;
+constexpr const int local_timestamp_length   = 14;
 
 const std::string g_local_time_format                    = "%E4Y%m%d%H%M%S";
 const std::string g_universal_time_format                = "%E4Y%m%d%H%M%SZ";
@@ -52,6 +55,8 @@ class GeneralizedTime
     using AsnId = Identifier;
 
   private:
+    bool is_well_formed() const;
+
     FixedIdBerContainer<Identifier> m_contents;
 };
 
@@ -105,7 +110,11 @@ void GeneralizedTime<Identifier>::set_time(const absl::Time& time, int timezone_
 template <typename Identifier>
 typename GeneralizedTime<Identifier>::TimeFormat GeneralizedTime<Identifier>::format() const
 {
-    if (m_contents.content().back() == 'Z')
+    if (m_contents.content_length() < minimum_timestamp_length)
+    {
+        return TimeFormat::local; // moved from, holds no time
+    }
+    else if (m_contents.content().back() == 'Z')
     {
         return TimeFormat::universal;
     }
@@ -120,6 +129,19 @@ typename GeneralizedTime<Identifier>::TimeFormat GeneralizedTime<Identifier>::fo
     }
 }
 
+// YYYYMMDDhhmmss, followed by Z, an offset from UTC, or nothing
+template <typename Identifier>
+bool GeneralizedTime<Identifier>::is_well_formed() const
+{
+    const auto   is_digit = [](uint8_t c) { return c >= '0' && c <= '9'; };
+    const auto   content  = m_contents.content();
+    const size_t zone     = (format() == TimeFormat::universal) ? 1 : (format() == TimeFormat::local) ? 0 : 5;
+
+    return content.length() == local_timestamp_length + zone &&
+           std::all_of(content.begin(), content.begin() + local_timestamp_length, is_digit) &&
+           (zone != 5 || std::all_of(content.end() - 4, content.end(), is_digit));
+}
+
 template <typename Identifier>
 absl::Time GeneralizedTime<Identifier>::time() const
 {
@@ -127,6 +149,11 @@ absl::Time GeneralizedTime<Identifier>::time() const
     absl::Time               time;
     const TimeFormat         frmt = format();
 
+    if (!is_well_formed())
+    {
+        throw std::runtime_error("Failed to parse time: " + this->string());
+    }
+
     if (frmt == TimeFormat::universal)
     {
         if (!absl::ParseTime(g_universal_time_format, this->string(), absl::UTCTimeZone(), &time, &s_error_string))
@@ -145,7 +172,7 @@ absl::Time GeneralizedTime<Identifier>::time() const
     }
     else if (frmt == TimeFormat::local)
     {
-        if (!absl::ParseTime(g_local_time_format, this->string(), absl::UTCTimeZone(), &time, &s_error_string))
+        if (!absl::ParseTime(g_local_time_format, this->string(), absl::LocalTimeZone(), &time, &s_error_string))
         {
             throw std::runtime_error("Failed to parse time: " + s_error_string);
         }
@@ -177,6 +204,7 @@ DecodeResult GeneralizedTime<Identifier>::decode(BerView view) noexcept
     DecodeResult res = m_contents.decode(view);
     if (m_contents.content_length() < minimum_timestamp_length || m_contents.content_length() > max_timestamp_length)
     {
+        set_time(absl::Time());
         return DecodeResult{false};
     }
     return res;
-- 
2.43.0


From 19ace5319a66e2ca4b652ccb06d5f8ac0dc7206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 11/87] fix: collections ignored malformed or truncated data
 after their last valid element

---
 include/fast_ber/ber_types/SequenceOf.hpp |  9 +++++----
 include/fast_ber/util/BerView.hpp         |  3 +++
 include/fast_ber/util/DecodeHelpers.hpp   | 10 ++++++++++
 src/compiler/EncodeDecode.cpp             | 12 ++++++++++++
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/SequenceOf.hpp b/include/fast_ber/ber_types/SequenceOf.hpp
index d0ec79e..df4fcd1 100644
--- a/include/fast_ber/ber_types/SequenceOf.hpp
+++ b/include/fast_ber/ber_types/SequenceOf.hpp
@@ -128,17 +128,18 @@ DecodeResult SequenceOf<T, I, s>::decode(BerView input) noexcept
         return DecodeResult{false};
     }
 
-    BerView child_range = (I::depth() == 1) ? input : *input.begin();
-    for (const BerView child : child_range)
+    BerView         child_range = (I::depth() == 1) ? input : *input.begin();
+    BerViewIterator child       = child_range.begin();
+    for (; child->is_valid(); ++child)
     {
         this->emplace_back();
-        bool success = this->back().decode(child).success;
+        bool success = this->back().decode(*child).success;
         if (!success)
         {
             return DecodeResult{false};
         }
     }
-    return DecodeResult{true};
+    return DecodeResult{child.is_complete()};
 }
 
 template <typename T, typename I, StorageMode s1>
diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index b34548b..f5b80bc 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -105,6 +105,9 @@ class BerViewIterator
     const BerView& operator*() const noexcept { return m_view; }
     const BerView* operator->() const noexcept { return &m_view; }
 
+    // All octets were part of an element, none were left over
+    bool is_complete() const noexcept { return m_buffer.empty(); }
+
     friend bool operator==(const BerViewIterator& lhs, const BerViewIterator& rhs) noexcept
     {
         if (!lhs.m_view.is_valid() && !rhs.m_view.is_valid())
diff --git a/include/fast_ber/util/DecodeHelpers.hpp b/include/fast_ber/util/DecodeHelpers.hpp
index 09f2aa9..94bb7bd 100644
--- a/include/fast_ber/util/DecodeHelpers.hpp
+++ b/include/fast_ber/util/DecodeHelpers.hpp
@@ -32,6 +32,16 @@ DecodeResult decode(BerViewIterator& input, T& output) noexcept
     return res;
 }
 
+// Whether the octets from the iterator onwards are a series of complete elements
+inline bool has_only_complete_elements(BerViewIterator iterator) noexcept
+{
+    while (iterator->is_valid())
+    {
+        ++iterator;
+    }
+    return iterator.is_complete();
+}
+
 template <Class class_, Tag tag>
 bool has_correct_header(BerView input, Id<class_, tag>, Construction construction)
 {
diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 16501f4..2e45a8e 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -321,6 +321,12 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                         block.add_line("++iterator;");
                     }
                 }
+                block.add_line("if (!iterator.is_complete())");
+                {
+                    auto scope2 = CodeScope(block);
+                    block.add_line(R"(FAST_BER_ERROR("Malformed data in set [)" + name + R"(]");)");
+                    block.add_line("return DecodeResult{false};");
+                }
                 std::size_t i = 0;
                 for (const ComponentType& component : collection.components)
                 {
@@ -416,6 +422,12 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                         block.add_line("++iterator;");
                     }
                 }
+                block.add_line("if (!has_only_complete_elements(iterator))");
+                {
+                    auto scope2 = CodeScope(block);
+                    block.add_line(R"(FAST_BER_ERROR("Malformed data in collection [)" + name + R"(]");)");
+                    block.add_line("return DecodeResult{false};");
+                }
             }
         }
         block.add_line("return DecodeResult{true};");
-- 
2.43.0


From 79d5e71ab7122f34e11c0aeeec0e6e720496b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 12/87] fix: decoding a CHOICE dereferenced an empty packet,
 and ignored data after a wrapped alternative

---
 include/fast_ber/ber_types/Choice.hpp |  7 ++++---
 src/compiler/EncodeDecode.cpp         | 13 +++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 4a91fcc..919c003 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -669,14 +669,15 @@ DecodeResult decode_impl(BerView input, Choice<Choices<Variants...>, Identifier,
         return DecodeResult{false};
     }
 
-    BerViewIterator child = (Identifier::depth() == 1) ? input.begin() : input.begin()->begin();
-    if (!child->is_valid())
+    const BerView wrapper = (Identifier::depth() == 1) ? input : *input.begin();
+    const BerView child(wrapper.content());
+    if (!child.is_valid() || child.ber_length() != wrapper.content_length())
     {
         return DecodeResult{false};
     }
 
     constexpr auto depth = sizeof...(Variants);
-    return decode_if<0, depth>(*child, output);
+    return decode_if<0, depth>(child, output);
 }
 
 template <typename... Variants, typename Identifier, StorageMode storage>
diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 2e45a8e..3808e35 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -464,16 +464,21 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
                 block.add_line("return DecodeResult{false};");
             }
 
-            block.add_line(
-                "BerViewIterator child = (Identifier::depth() == 1) ? input.begin() : input.begin()->begin();");
-            block.add_line("if (!child->is_valid())");
+            block.add_line("BerView const wrapper = (Identifier::depth() == 1) ? input : *input.begin();");
+            block.add_line("content = BerView(wrapper.content());");
+            block.add_line("if (!content.is_valid() || content.ber_length() != wrapper.content_length())");
             {
                 auto scope3 = CodeScope(block);
                 block.add_line(R"(FAST_BER_ERROR("Invalid child packet when decoding choice [)" + name + R"(]");)");
 
                 block.add_line("return DecodeResult{false};");
             }
-            block.add_line("content = *child;");
+        }
+        block.add_line("else if (!content.is_valid())");
+        {
+            auto scope2 = CodeScope(block);
+            block.add_line(R"(FAST_BER_ERROR("Invalid packet when decoding choice [)" + name + R"(]");)");
+            block.add_line("return DecodeResult{false};");
         }
 
         if (module.tagging_default == TaggingMode::automatic)
-- 
2.43.0


From ccf1729d7ff289516b88dfcc268d78140f45a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 13/87] fix: CHOICE decoding selected alternatives by tag
 number whatever the class

---
 src/compiler/EncodeDecode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 3808e35..c201893 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -507,8 +507,10 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
                 if (std::any_of(outer_ids.begin(), outer_ids.end(),
                                 [class_](const Identifier& id) { return id.class_ == class_; }))
                 {
+                    block.add_line("if (content.class_() == " + to_string(class_) + ")");
+                    auto scope2 = CodeScope(block);
                     block.add_line("switch (content.tag())");
-                    auto        scope2 = CodeScope(block);
+                    auto        scope3 = CodeScope(block);
                     std::size_t i      = 0;
                     for (const NamedType& named_type : choice.choices)
                     {
-- 
2.43.0


From 00302bffa9d5c9da915e9b04e04636e53251e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 14/87] fix: DynamicVariant lifetimes: self assignment, moved
 from variants and throwing constructors

Assigning a variant to itself, or emplacing something which refers to the current alternative, used
freed storage; a moved from variant was neither empty nor usable; an alternative whose constructor
threw left a dangling pointer.
---
 include/fast_ber/util/DynamicVariant.hpp | 123 ++++++++---------------
 1 file changed, 41 insertions(+), 82 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 0a998c0..bbdd156 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -331,13 +331,11 @@ class DynamicVariant
 
     DynamicVariant() noexcept : m_data(new ToType<0>()) {}
     DynamicVariant(const DynamicVariant& other)
-        : m_index(other.m_index), m_data(fast_ber::dynamic::visit(CopyVisitor{}, other))
+        : m_index(other.m_index),
+          m_data(other.valueless_by_exception() ? nullptr : fast_ber::dynamic::visit(CopyVisitor{}, other))
     {
     }
-    DynamicVariant(DynamicVariant&& other) noexcept : m_index(std::move(other.m_index)), m_data(std::move(other.m_data))
-    {
-        other.m_data = nullptr;
-    }
+    DynamicVariant(DynamicVariant&& other) noexcept : m_index(variant_npos), m_data(nullptr) { swap(other); }
 
     template <typename T, typename = absl::enable_if_t<!std::is_same<absl::decay_t<T>, DynamicVariant>::value>,
               typename = absl::enable_if_t<ExactlyOnce<AcceptedType<T&&>>::value &&
@@ -384,36 +382,19 @@ class DynamicVariant
         assert(index() == i);
     }
 
-    ~DynamicVariant()
-    {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-    }
+    ~DynamicVariant() { destroy(); }
 
     DynamicVariant& operator=(const DynamicVariant& other)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = other.m_index;
-        m_data  = fast_ber::dynamic::visit(CopyVisitor(), other);
-
+        DynamicVariant copy(other);
+        swap(copy);
         return *this;
     }
 
     DynamicVariant& operator=(DynamicVariant&& other) noexcept
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = other.m_index;
-        m_data  = other.m_data;
-
-        other.m_data = nullptr;
+        DynamicVariant moved(std::move(other));
+        swap(moved);
         return *this;
     }
 
@@ -424,12 +405,7 @@ class DynamicVariant
     DynamicVariant& operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::move(t));
+        replace(AcceptedIndex<T>::value, new AcceptedType<T>(std::move(t)));
         return *this;
     }
 
@@ -437,12 +413,7 @@ class DynamicVariant
               typename = absl::enable_if_t<std::is_constructible<T, Args...>::value && ExactlyOnce<T>::value>>
     T& emplace(Args&&... args)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::forward<Args>(args)...);
+        replace(detail::IndexOf<T, Types...>::value, new T(std::forward<Args>(args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -453,12 +424,7 @@ class DynamicVariant
                                            ExactlyOnce<T>::value>>
     T& emplace(std::initializer_list<U> il, Args&&... args)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new T(std::forward<Args>(il, args)...);
+        replace(detail::IndexOf<T, Types...>::value, new T(std::forward<Args>(il, args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -471,21 +437,7 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-
-        try
-        {
-            m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(args)...);
-        }
-        catch (...)
-        {
-            m_index = variant_npos;
-            throw;
-        }
+        replace(i, new ToType<i>(std::forward<Args>(args)...));
         assert(index() == i);
         return get<i>(*this);
     }
@@ -498,21 +450,7 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-
-        try
-        {
-            m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(il, args)...);
-        }
-        catch (...)
-        {
-            m_index = variant_npos;
-            throw;
-        }
+        replace(i, new ToType<i>(std::forward<Args>(il, args)...));
         assert(index() == i);
         return get<i>(*this);
     }
@@ -540,8 +478,25 @@ class DynamicVariant
     }
 
   private:
+    void destroy() noexcept
+    {
+        if (!valueless_by_exception() && m_data != nullptr)
+        {
+            fast_ber::dynamic::visit(DeleteVisitor(), *this);
+        }
+    }
+
+    // Takes ownership of a newly created alternative. The current one is only destroyed once its replacement exists,
+    // it is kept when creating the replacement throws.
+    void replace(size_t index, void* data) noexcept
+    {
+        destroy();
+        m_index = index;
+        m_data  = data;
+    }
+
     size_t m_index{0};
-    void*  m_data;
+    void*  m_data; // null when m_index is variant_npos
 }; // namespace fast_ber
 
 static_assert(std::is_copy_constructible<DynamicVariant<int, char>>::value, "");
@@ -597,37 +552,41 @@ struct GreaterThanOrEquals
 template <typename... Types>
 bool operator==(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() == b.index()) && visit_binary(Equals(), a, b);
+    return (a.index() == b.index()) && (a.valueless_by_exception() || visit_binary(Equals(), a, b));
 }
 
 template <typename... Types>
 bool operator!=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) || !visit_binary(Equals(), a, b);
+    return !(a == b);
 }
 
 template <typename... Types>
 bool operator<(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1) : visit_binary(LessThan(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1)
+                                    : !a.valueless_by_exception() && visit_binary(LessThan(), a, b);
 }
 
 template <typename... Types>
 bool operator>(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1) : visit_binary(GreaterThan(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1)
+                                    : !a.valueless_by_exception() && visit_binary(GreaterThan(), a, b);
 }
 
 template <typename... Types>
 bool operator<=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1) : visit_binary(LessThanOrEquals(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1)
+                                    : a.valueless_by_exception() || visit_binary(LessThanOrEquals(), a, b);
 }
 
 template <typename... Types>
 bool operator>=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1) : visit_binary(GreaterThanOrEquals(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1)
+                                    : a.valueless_by_exception() || visit_binary(GreaterThanOrEquals(), a, b);
 }
 
 } // namespace dynamic
-- 
2.43.0


From f70e17f314c7b6d9760134def1f5ee365537b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 15/87] fix: DynamicVariant operator< compared for equality

---
 include/fast_ber/util/DynamicVariant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index bbdd156..4232158 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -518,7 +518,7 @@ struct LessThan
     template <typename T>
     bool operator()(const T& lhs, const T& rhs)
     {
-        return lhs == rhs;
+        return lhs < rhs;
     }
 };
 
-- 
2.43.0


From f21960bf64701a89346be45f689b1c65b982db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 16/87] fix: assigning an lvalue to a DynamicVariant moved from
 it

---
 include/fast_ber/util/DynamicVariant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 4232158..1e0ee7f 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -405,7 +405,7 @@ class DynamicVariant
     DynamicVariant& operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        replace(AcceptedIndex<T>::value, new AcceptedType<T>(std::move(t)));
+        replace(AcceptedIndex<T>::value, new AcceptedType<T>(std::forward<T>(t)));
         return *this;
     }
 
-- 
2.43.0


From 57b477bd56cf21accdbdc1d2b7a0e0cfb9305948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 17/87] fix: DynamicVariant emplace with an initializer list
 and get of an rvalue did not compile

---
 include/fast_ber/util/DynamicVariant.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 1e0ee7f..7939c12 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -121,7 +121,7 @@ T&& get(DynamicVariant<Types...>&& v)
     {
         throw BadVariantAccess();
     }
-    return v.template value<T>();
+    return std::move(v.template value<T>());
 }
 
 template <class T, class... Types>
@@ -141,7 +141,7 @@ const T&& get(const DynamicVariant<Types...>&& v)
     {
         throw BadVariantAccess();
     }
-    return v.template value<T>();
+    return std::move(v.template value<T>());
 }
 
 template <std::size_t I, class... Types>
@@ -161,7 +161,7 @@ variant_alternative_t<I, DynamicVariant<Types...>>&& get(DynamicVariant<Types...
     {
         throw BadVariantAccess();
     }
-    return v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>();
+    return std::move(v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>());
 }
 
 template <std::size_t I, class... Types>
@@ -181,7 +181,7 @@ const variant_alternative_t<I, DynamicVariant<Types...>>&& get(const DynamicVari
     {
         throw BadVariantAccess();
     }
-    return v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>();
+    return std::move(v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>());
 }
 
 template <std::size_t I, class... Types>
@@ -424,7 +424,7 @@ class DynamicVariant
                                            ExactlyOnce<T>::value>>
     T& emplace(std::initializer_list<U> il, Args&&... args)
     {
-        replace(detail::IndexOf<T, Types...>::value, new T(std::forward<Args>(il, args)...));
+        replace(detail::IndexOf<T, Types...>::value, new T(il, std::forward<Args>(args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -450,7 +450,7 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        replace(i, new ToType<i>(std::forward<Args>(il, args)...));
+        replace(i, new ToType<i>(il, std::forward<Args>(args)...));
         assert(index() == i);
         return get<i>(*this);
     }
-- 
2.43.0


From bab10201d0f8fb75c2f8e7c5915677f2f5dfd4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 18/87] fix: comparing a DynamicOptional with a value
 dereferenced the value

---
 include/fast_ber/util/DynamicOptional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicOptional.hpp b/include/fast_ber/util/DynamicOptional.hpp
index ecd55b1..07c9fe8 100644
--- a/include/fast_ber/util/DynamicOptional.hpp
+++ b/include/fast_ber/util/DynamicOptional.hpp
@@ -96,7 +96,7 @@ class DynamicOptional
             return false;
         }
 
-        return *m_val == *rhs;
+        return *m_val == rhs;
     }
     bool operator!=(const DynamicOptional& rhs) const noexcept { return !(*this == rhs); }
     bool operator!=(const T& rhs) const noexcept { return !(*this == rhs); }
-- 
2.43.0


From 675cd2619c8b6784e0322580abec24157519f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 19/87] fix: Default::value did not compile

---
 include/fast_ber/ber_types/Default.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 8aa24e8..bb4239e 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -41,7 +41,7 @@ struct Default
     Default& operator=(const char* val);
 
     const T&              get() const noexcept { return is_default() ? m_default : *m_item; }
-    decltype(T{}.value()) value() const noexcept(T{}.value()) { return get()->value(); }
+    decltype(T{}.value()) value() const noexcept(T{}.value()) { return get().value(); }
     bool                  is_default() const noexcept { return !m_item; }
     void                  set_to_default() noexcept { m_item = absl::nullopt; }
 
-- 
2.43.0


From fbb4f67241e46de0307fc3d07ea798b0be9a265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 20/87] fix: SequenceOf move assignment copied, and could throw

---
 include/fast_ber/ber_types/SequenceOf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/SequenceOf.hpp b/include/fast_ber/ber_types/SequenceOf.hpp
index df4fcd1..78e7371 100644
--- a/include/fast_ber/ber_types/SequenceOf.hpp
+++ b/include/fast_ber/ber_types/SequenceOf.hpp
@@ -69,7 +69,7 @@ SequenceOf<T, I, s>::SequenceOf(SequenceOf<T, I, s>&& rhs) noexcept : Implementa
 template <typename T, typename I, StorageMode s>
 SequenceOf<T, I, s>& SequenceOf<T, I, s>::operator=(SequenceOf<T, I, s>&& rhs) noexcept
 {
-    Implementation::operator=(rhs);
+    Implementation::operator=(std::move(rhs));
     return *this;
 }
 
-- 
2.43.0


From b8332900c59808e72fb59ed6a568595f140c96b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 21/87] fix: visiting an empty DynamicVariant threw an int

---
 include/fast_ber/util/DynamicVariant.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 7939c12..49fb4d0 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -215,8 +215,7 @@ template <size_t index, typename Visitor, typename... VariantOptions,
 [[noreturn]] auto visit_impl(Visitor&& vis, const DynamicVariant<VariantOptions...>& variant)
     -> decltype(vis(get<0>(variant)))
 {
-    assert("Not reachable");
-    throw 0;
+    throw BadVariantAccess();
 }
 
 template <size_t index, typename Visitor, typename... VariantOptions,
@@ -252,8 +251,7 @@ template <size_t index, typename Visitor, typename... VariantOptions,
 [[noreturn]] auto visit_binary_impl(Visitor&& vis, const DynamicVariant<VariantOptions...>& a,
                                     const DynamicVariant<VariantOptions...>& b) -> decltype(vis(get<0>(a), get<0>(b)))
 {
-    assert("Not reachable");
-    throw 0;
+    throw BadVariantAccess();
 }
 
 template <size_t index, typename Visitor, typename... VariantOptions,
-- 
2.43.0


From 94191578912680018d8e07fa60a8038731fbcb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 22/87] fix: an INTEGER or ENUMERATED without contents was
 accepted

---
 include/fast_ber/ber_types/Integer.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Integer.hpp b/include/fast_ber/ber_types/Integer.hpp
index 4b8cc4c..babcf56 100644
--- a/include/fast_ber/ber_types/Integer.hpp
+++ b/include/fast_ber/ber_types/Integer.hpp
@@ -63,7 +63,7 @@ class Integer
 
     size_t       encoded_length() const noexcept { return m_contents.ber_length(); }
     EncodeResult encode(absl::Span<uint8_t> buffer) const noexcept { return m_contents.encode(buffer); }
-    DecodeResult decode(BerView rhs) noexcept { return m_contents.decode(rhs); }
+    DecodeResult decode(BerView rhs) noexcept;
 
     template <typename Identifier2>
     friend class Integer;
@@ -183,6 +183,18 @@ inline void Integer<Identifier>::assign(const Integer<Identifier2>& rhs) noexcep
     m_contents = rhs.m_contents;
 }
 
+template <typename Identifier>
+DecodeResult Integer<Identifier>::decode(BerView rhs) noexcept
+{
+    DecodeResult res = m_contents.decode(rhs);
+    if (res.success && m_contents.content_length() == 0)
+    {
+        assign(0);
+        return DecodeResult{false};
+    }
+    return res;
+}
+
 template <typename Identifier>
 DecodeResult decode(BerViewIterator& input, Integer<Identifier>& output) noexcept
 {
-- 
2.43.0


From d900d244646806001d7e4253d2240280db0cecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 23/87] fix: distinct REALs compared equal

Values less than epsilon apart were equal, so that 1e-300 was 0 and a component close to its DEFAULT
value was left out of the encoding.
---
 include/fast_ber/ber_types/Real.hpp | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 97e79cf..11d9785 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -449,30 +449,8 @@ inline void Real<Identifier>::assign(const Real<Identifier>& rhs) noexcept
 template <typename Identifier>
 inline bool Real<Identifier>::operator==(const Real& rhs) const noexcept
 {
-    /* Inspired from https://www.embeddeduse.com/2019/08/26/qt-compare-two-floats/ */
-    const double lhs_value = this->value();
-    const double rhs_value = rhs.value();
-
-    /* Cannot compare NAN */
-    if (std::isnan(lhs_value) || std::isnan(rhs_value))
-    {
-        return false;
-    }
-
-    /* According to https://www.gnu.org/software/libc/manual/html_node/Infinity-and-NaN.html
-     * In comparison operations, positive infinity is larger than all values except itself and NaN */
-    if (std::isinf(lhs_value) || std::isinf(rhs_value))
-    {
-        return lhs_value == rhs_value;
-    }
-
-    if (std::abs(lhs_value - rhs_value) <= std::numeric_limits<double>::epsilon())
-    {
-        return true;
-    }
-
-    return std::abs(lhs_value - rhs_value) <=
-           std::numeric_limits<double>::epsilon() * std::max(std::abs(lhs_value), std::abs(rhs_value));
+    // NAN equals nothing, not even itself
+    return this->value() <= rhs.value() && this->value() >= rhs.value();
 }
 
 template <typename Identifier>
-- 
2.43.0


From e2bd5f917e9408119a27ec8f6ca86698cad9a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 24/87] fix: a decimal REAL without digits read beyond its
 contents

---
 src/ber_types/Real.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber_types/Real.cpp b/src/ber_types/Real.cpp
index 011a35b..926257a 100644
--- a/src/ber_types/Real.cpp
+++ b/src/ber_types/Real.cpp
@@ -17,7 +17,7 @@ const std::regex g_iso_6093_nr3{"^[ ]*[+-]?([0-9]+[\\.\\,]{1}[0-9]*|[0-9]*[\\.\\
  */
 bool decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexcept
 {
-    std::string iso_6093_value(reinterpret_cast<const char*>(&input[1]), input.length() - 1);
+    std::string iso_6093_value(reinterpret_cast<const char*>(input.data()) + 1, input.length() - 1);
 
     /* Check that string matches the iso 6093 NR1/NR2/NR3 forms */
     if (std::regex_match(iso_6093_value, g_iso_6093_nr1) || std::regex_match(iso_6093_value, g_iso_6093_nr2) ||
-- 
2.43.0


From adb091e15d47ea6fd0fb9b93c2a570cb991af036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 25/87] fix: an explicitly tagged CHOICE was wrapped twice

---
 src/compiler/Identifier.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index f495896..b94ec6d 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -187,6 +187,11 @@ TaggingInfo identifier(const TaggedType& tagged_type, const Module& current_modu
     }
 
     const TaggingInfo& child_tag = identifier(tagged_type.type, current_module, tree);
+    if (!child_tag.outer_tag && !child_tag.choice_ids.empty())
+    {
+        // An untagged choice has no identifier of its own, the identifier of the alternative follows the tag
+        return TaggingInfo{{}, Identifier(tagged_type.tag.class_, tagged_type.tag.tag_number), {}, false};
+    }
     if (is_explicit || child_tag.outer_tag)
     {
         return TaggingInfo{
-- 
2.43.0


From acb2d76e8b33a2ddc47658562e0cc7affc8bd1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 26/87] fix: tagged types lost their tags when they were
 SEQUENCE, SET or CHOICE

A top level or element type such as T ::= [5] SEQUENCE {...}, [5] CHOICE {...}
or [5] Ref was split into an untagged type, and encoded without the tag.
---
 include/fast_ber/util/Alias.hpp               | 30 ++++++++++
 src/compiler/CompilerTypes.cpp                |  8 +++
 src/compiler/ReorderAssignments.cpp           | 59 ++++++++++---------
 src/compiler/ResolveType.cpp                  |  4 +-
 src/compiler/TypeAsString.cpp                 | 48 ++++++++++++---
 .../fast_ber/compiler/CompilerTypes.hpp       |  5 ++
 6 files changed, 117 insertions(+), 37 deletions(-)

diff --git a/include/fast_ber/util/Alias.hpp b/include/fast_ber/util/Alias.hpp
index 9caba9d..6acb846 100644
--- a/include/fast_ber/util/Alias.hpp
+++ b/include/fast_ber/util/Alias.hpp
@@ -1,5 +1,35 @@
 #pragma once
 
+#include "fast_ber/util/DecodeHelpers.hpp"
+#include "fast_ber/util/EncodeHelpers.hpp"
+
+#include <utility>
+
+namespace fast_ber
+{
+
+// A generated type which is encoded with an identifier other than its own
+template <typename Type, typename Identifier>
+struct WithId : Type
+{
+    using AsnId = Identifier;
+
+    using Type::Type;
+    using Type::operator=;
+    WithId()    = default;
+    WithId(const Type& t) : Type(t) {}
+    WithId(Type&& t) : Type(std::move(t)) {}
+
+    std::size_t  encoded_length() const noexcept { return this->Type::template encoded_length_with_id<Identifier>(); }
+    EncodeResult encode(absl::Span<uint8_t> output) const noexcept
+    {
+        return this->Type::template encode_with_id<Identifier>(output);
+    }
+    DecodeResult decode(BerView input) noexcept { return this->Type::template decode_with_id<Identifier>(input); }
+};
+
+} // namespace fast_ber
+
 #define FAST_BER_ALIAS(X, ...)                                                                                         \
     struct X : __VA_ARGS__                                                                                             \
     {                                                                                                                  \
diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 703f2f8..6275851 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -286,6 +286,14 @@ bool is_prefixed(const Type& type)
            absl::holds_alternative<PrefixedType>(absl::get<BuiltinType>(type));
 }
 
+Type& without_tags(Type& type)
+{
+    return is_prefixed(type) ? without_tags(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type)
+                             : type;
+}
+
+const Type& without_tags(const Type& type) { return without_tags(const_cast<Type&>(type)); }
+
 bool is_integer(const Type& type)
 {
     return absl::holds_alternative<BuiltinType>(type) &&
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index a72771d..2a2ebac 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -47,18 +47,19 @@ void resolve_components_of(Asn1Tree& tree)
         {
             if (absl::holds_alternative<TypeAssignment>(assignemnt.specific))
             {
-                TypeAssignment& type_assignment = absl::get<TypeAssignment>(assignemnt.specific);
-                if (is_sequence(type_assignment.type))
+                Type& assigned_type = without_tags(absl::get<TypeAssignment>(assignemnt.specific).type);
+                if (is_sequence(assigned_type))
                 {
-                    SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type_assignment.type));
+                    SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(assigned_type));
                     for (auto iter = sequence.components.begin(); iter != sequence.components.end(); iter++)
                     {
                         if (iter->components_of)
                         {
                             if (is_defined(*iter->components_of))
                             {
-                                const DefinedType& defined    = absl::get<DefinedType>(*iter->components_of);
-                                const Type&        inheretied = type(resolve(tree, module.module_reference, defined));
+                                const DefinedType& defined = absl::get<DefinedType>(*iter->components_of);
+                                const Type&        inheretied =
+                                    without_tags(type(resolve(tree, module.module_reference, defined)));
                                 if (is_sequence(inheretied))
                                 {
                                     const SequenceType& inheretied_sequence =
@@ -141,6 +142,8 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
     }
 
     Assignment& assignment = assign_iter->second;
+    Type        no_type;
+    Type&       assigned_type = is_type(assignment) ? without_tags(type(assignment)) : no_type;
 
     if (assigned_names.count(name) == 1)
     {
@@ -168,7 +171,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
     };
 
     if (is_type(assignment) &&
-        (is_choice(type(assignment)) || is_set_of(type(assignment)) || is_sequence_of(type(assignment))))
+        (is_choice(assigned_type) || is_set_of(assigned_type) || is_sequence_of(assigned_type)))
     {
         // If circular dependancy, use dynamic storage. Else, resolve and use static storage
         if (is_circular({Dependency{name, module.module_reference}}))
@@ -176,9 +179,9 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             // As type is now dynamic it doesn't have any dependencies
             assignment_infos[name].depends_on = {};
 
-            if (is_choice(type(assignment)))
+            if (is_choice(assigned_type))
             {
-                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type(assignment)));
+                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(assigned_type));
                 choice.storage     = StorageMode::dynamic;
 
                 // Also mark self referential children as dynamic (Sizeof choice cannot yet be determined)
@@ -200,13 +203,13 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                     }
                 }
             }
-            else if (is_set_of(type(assignment)))
+            else if (is_set_of(assigned_type))
             {
-                absl::get<SetOfType>(absl::get<BuiltinType>(type(assignment))).storage = StorageMode::dynamic;
+                absl::get<SetOfType>(absl::get<BuiltinType>(assigned_type)).storage = StorageMode::dynamic;
             }
-            else if (is_sequence_of(type(assignment)))
+            else if (is_sequence_of(assigned_type))
             {
-                absl::get<SequenceOfType>(absl::get<BuiltinType>(type(assignment))).storage = StorageMode::dynamic;
+                absl::get<SequenceOfType>(absl::get<BuiltinType>(assigned_type)).storage = StorageMode::dynamic;
             }
             std::cout << "Type " << name << " has circular dependencies, setting dynamic storage policy" << std::endl;
         }
@@ -224,9 +227,9 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
         }
     }
-    else if (is_type(assignment) && is_sequence(type(assignment)))
+    else if (is_type(assignment) && is_sequence(assigned_type))
     {
-        SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type(assignment)));
+        SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(assigned_type));
         for (ComponentType& component : sequence.components)
         {
             if (component.default_value)
@@ -263,9 +266,9 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
         }
     }
-    else if (is_type(assignment) && is_set(type(assignment)))
+    else if (is_type(assignment) && is_set(assigned_type))
     {
-        SetType& sequence = absl::get<SetType>(absl::get<BuiltinType>(type(assignment)));
+        SetType& sequence = absl::get<SetType>(absl::get<BuiltinType>(assigned_type));
         for (ComponentType& component : sequence.components)
         {
             if (component.default_value)
@@ -375,27 +378,28 @@ void find_nested_structs(const Module& module, Type& type, std::vector<NamedType
     {
         SetOfType& set_of     = absl::get<SetOfType>(absl::get<BuiltinType>(type));
         Type&      inner_type = set_of.has_name ? set_of.named_type->type : *set_of.type;
-        find_nested_structs(module, inner_type, nested_structs);
+        // A tagged element keeps its tags when it is split
+        find_nested_structs(module, without_tags(inner_type), nested_structs);
 
-        if (is_set(inner_type))
+        if (is_set(without_tags(inner_type)))
         {
             const std::string& name = "UnnamedSet" + std::to_string(unnamed_definition_num++);
             nested_structs.push_back(NamedType{name, inner_type});
             inner_type = DefinedType{module.module_reference, name, {}};
         }
-        else if (is_sequence(inner_type))
+        else if (is_sequence(without_tags(inner_type)))
         {
             const std::string& name = "UnnamedSequence" + std::to_string(unnamed_definition_num++);
             nested_structs.push_back(NamedType{name, inner_type});
             inner_type = DefinedType{module.module_reference, name, {}};
         }
-        else if (is_enumerated(inner_type))
+        else if (is_enumerated(without_tags(inner_type)))
         {
             const std::string& name = "UnnamedEnum" + std::to_string(unnamed_definition_num++);
             nested_structs.push_back(NamedType{name, inner_type});
             inner_type = DefinedType{module.module_reference, name, {}};
         }
-        else if (is_choice(inner_type))
+        else if (is_choice(without_tags(inner_type)))
         {
             const std::string& name = "UnnamedChoice" + std::to_string(unnamed_definition_num++);
             nested_structs.push_back(NamedType{name, inner_type});
@@ -407,27 +411,28 @@ void find_nested_structs(const Module& module, Type& type, std::vector<NamedType
         SequenceOfType& sequence_of = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
         Type&           inner_type  = sequence_of.has_name ? sequence_of.named_type->type : *sequence_of.type;
 
-        find_nested_structs(module, inner_type, nested_structs);
+        // A tagged element keeps its tags when it is split
+        find_nested_structs(module, without_tags(inner_type), nested_structs);
 
-        if (is_set(inner_type))
+        if (is_set(without_tags(inner_type)))
         {
             const std::string& name = "UnnamedSet" + std::to_string(unnamed_definition_num++);
             nested_structs.push_back(NamedType{name, inner_type});
             inner_type = DefinedType{module.module_reference, name, {}};
         }
-        else if (is_sequence(inner_type))
+        else if (is_sequence(without_tags(inner_type)))
         {
             const std::string& name = "UnnamedSequence" + std::to_string(unnamed_definition_num++);
             nested_structs.push_back(NamedType{name, inner_type});
             inner_type = DefinedType{module.module_reference, name, {}};
         }
-        else if (is_enumerated(inner_type))
+        else if (is_enumerated(without_tags(inner_type)))
         {
             const std::string& name = "UnnamedEnum" + std::to_string(unnamed_definition_num++);
             nested_structs.push_back(NamedType{name, inner_type});
             inner_type = DefinedType{module.module_reference, name, {}};
         }
-        else if (is_choice(inner_type))
+        else if (is_choice(without_tags(inner_type)))
         {
             const std::string& name = "UnnamedChoice" + std::to_string(unnamed_definition_num++);
             nested_structs.push_back(NamedType{name, inner_type});
@@ -544,7 +549,7 @@ std::vector<Assignment> split_nested_structures(const Module& module)
         if (absl::holds_alternative<TypeAssignment>(assignment.specific))
         {
             std::vector<NamedType> nested_structs;
-            find_nested_structs(module, absl::get<TypeAssignment>(assignment.specific).type, nested_structs);
+            find_nested_structs(module, without_tags(absl::get<TypeAssignment>(assignment.specific).type), nested_structs);
 
             for (auto nested_iter = nested_structs.rbegin(); nested_iter != nested_structs.rend(); nested_iter++)
             {
diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index 18cdd19..c7f4109 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -184,9 +184,9 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
             if (is_defined(prefixed.tagged_type->type))
             {
                 NamedTypeAndModule const& inner = resolve_type_and_module(
-                    tree, current_module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
+                    tree, working_module.module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
                 prefixed.tagged_type->type = inner.type.type;
-                return {NamedType{assignment.name, prefixed}, inner.module};
+                return {NamedType{inner.type.name, prefixed}, inner.module};
             }
             else
             {
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index cc443b4..cd3bfde 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -315,7 +315,7 @@ std::string type_as_string(const SetOfType& set, const Module& module, const Asn
     return type_as_string(set.base(), module, tree, type_name, identifier_override);
 }
 std::string type_as_string(const PrefixedType& prefixed_type, const Module& module, const Asn1Tree& tree,
-                           const std::string&, const std::string& identifier_override)
+                           const std::string& type_name, const std::string& identifier_override)
 {
     auto id = identifier(prefixed_type, module, tree).name();
     if (!identifier_override.empty())
@@ -323,7 +323,7 @@ std::string type_as_string(const PrefixedType& prefixed_type, const Module& modu
         id = identifier_override;
     }
 
-    return type_as_string(prefixed_type.tagged_type->type, module, tree, "", id);
+    return type_as_string(prefixed_type.tagged_type->type, module, tree, type_name, id);
 }
 std::string type_as_string(const TimeType& type, const Module& module, const Asn1Tree& tree, const std::string&,
                            const std::string& identifier_override)
@@ -345,10 +345,12 @@ std::string type_as_string(const DefinedType& defined_type, const Module& module
 {
     if (!identifier_override.empty())
     {
-        NamedType resolved = resolve_type(tree, module.module_reference, defined_type);
-        if (!is_generated(resolved.type))
+        NamedTypeAndModule resolved = resolve_type_and_module(tree, module.module_reference, defined_type);
+        if (!is_generated(resolved.type.type))
         {
-            return type_as_string(resolved.type, module, tree, defined_type.type_reference, identifier_override);
+            return type_as_string(resolved.type.type, resolved.module, tree,
+                                  "::fast_ber::" + resolved.module.module_reference + "::" + resolved.type.name,
+                                  identifier_override);
         }
     }
 
@@ -388,12 +390,42 @@ std::string type_as_string(const Type& type, const Module& module, const Asn1Tre
     return absl::visit(string_helper, type);
 }
 
+// A tagged reference to a generated type
+bool is_tagged_reference(const Type& type, const Module& module, const Asn1Tree& tree)
+{
+    return is_prefixed(type) && is_defined(without_tags(type)) &&
+           is_generated(resolve_type(tree, module.module_reference, absl::get<DefinedType>(without_tags(type))).type);
+}
+
+std::string tagged_reference_as_string(const Type& type, const Module& module, const Asn1Tree& tree)
+{
+    return "::fast_ber::WithId<" + type_as_string(without_tags(type), module, tree, {}, {}) + ", " +
+           identifier(type, module, tree).name() + ">";
+}
+
+CodeBlock create_contained_type(const std::string& name, const Type& type, const Module& module, const Asn1Tree& tree)
+{
+    if (is_tagged_reference(type, module, tree))
+    {
+        CodeBlock block;
+        block.add_line("using " + name + " = " + tagged_reference_as_string(type, module, tree) + ";");
+        return block;
+    }
+    return create_type_assignment(name, type, module, tree, {}, false);
+}
+
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
                                  const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type)
 {
     CodeBlock block;
 
-    if (is_enumerated(assignment_type))
+    if (introduce_type && is_tagged_reference(assignment_type, module, tree))
+    {
+        block.add_line("FAST_BER_ALIAS(" + name + ", " + tagged_reference_as_string(assignment_type, module, tree) +
+                       ");");
+        return block;
+    }
+    else if (is_enumerated(assignment_type))
     {
         const EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(assignment_type));
         block.add_line("enum class " + name + "Values");
@@ -414,13 +446,13 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     {
         const SetOfType& sequence = absl::get<SetOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&      type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        block.add_block(create_contained_type(name + "Contained", type, module, tree));
     }
     else if (is_sequence_of(assignment_type))
     {
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&           type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        block.add_block(create_contained_type(name + "Contained", type, module, tree));
     }
     else if (is_set(assignment_type))
     {
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 0deba40..e0e82d8 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -741,6 +741,11 @@ bool is_sequence_of(const Type& type);
 bool is_enumerated(const Type& type);
 bool is_choice(const Type& type);
 bool is_prefixed(const Type& type);
+
+// The type which is tagged, or the type itself if it has no tags
+Type&       without_tags(Type& type);
+const Type& without_tags(const Type& type);
+
 bool is_integer(const Type& type);
 bool is_octet_string(const Type& type);
 bool is_boolean(const Type& type);
-- 
2.43.0


From c47908e2bb7940582372161224c2200a4afee25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 27/87] fix: a SET without components accepted components, and
 empty collections malformed data

---
 src/compiler/EncodeDecode.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index c201893..4b36a89 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -202,9 +202,11 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
             block.add_line("return DecodeResult{false};");
         }
 
-        if (collection.components.size() > 0)
         {
-            block.add_line("DecodeResult res;");
+            if (collection.components.size() > 0)
+            {
+                block.add_line("DecodeResult res;");
+            }
             block.add_line("auto iterator = (Identifier_::depth() == 1) ? input.begin()");
             block.add_line("                                            : input.begin()->begin();");
 
@@ -214,8 +216,11 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                 block.add_line("                                             : input.begin()->end();");
                 block.add_line();
 
-                block.add_line("std::array<std::size_t, " + std::to_string(collection.components.size()) +
-                               "> decode_counts = {};");
+                if (collection.components.size() > 0)
+                {
+                    block.add_line("std::array<std::size_t, " + std::to_string(collection.components.size()) +
+                                   "> decode_counts = {};");
+                }
                 block.add_line("while (iterator != end)");
                 {
                     auto scope2 = CodeScope(block);
-- 
2.43.0


From 7664da1b65c0fe8214fa4a81e8a9430ff1707789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 28/87] fix: the move assignment of a dynamic Optional did not
 compile

---
 include/fast_ber/ber_types/Optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Optional.hpp b/include/fast_ber/ber_types/Optional.hpp
index ae42f2e..3b06601 100644
--- a/include/fast_ber/ber_types/Optional.hpp
+++ b/include/fast_ber/ber_types/Optional.hpp
@@ -70,14 +70,14 @@ struct IdentifierType<Optional<T, s1>>
 };
 
 template <typename T, StorageMode s1>
-Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(std::move(rhs))
+Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(static_cast<Implementation&&>(rhs))
 {
 }
 
 template <typename T, StorageMode s1>
 Optional<T, s1>& Optional<T, s1>::operator=(Optional<T, s1>&& rhs) noexcept
 {
-    this->Implementation::operator=(std::move(rhs));
+    this->Implementation::operator=(static_cast<Implementation&&>(rhs));
     return *this;
 }
 
-- 
2.43.0


From da62ee53b736cdc1efbc589f30862d455dfd7045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 29/87] fix: DEFAULTs of enumerated and imported values did not
 compile

---
 src/compiler/Dependencies.cpp                 | 30 +++---
 src/compiler/ReorderAssignments.cpp           | 97 ++++++++++---------
 src/compiler/ResolveType.cpp                  | 14 +++
 src/compiler/TypeAsString.cpp                 | 46 +++++----
 .../fast_ber/compiler/CompilerTypes.hpp       |  1 +
 .../include/fast_ber/compiler/ResolveType.hpp |  3 +
 src/compiler_main/CompilerMain.cpp            | 12 +--
 7 files changed, 113 insertions(+), 90 deletions(-)

diff --git a/src/compiler/Dependencies.cpp b/src/compiler/Dependencies.cpp
index 0f80a69..f857097 100644
--- a/src/compiler/Dependencies.cpp
+++ b/src/compiler/Dependencies.cpp
@@ -1,5 +1,7 @@
 #include "fast_ber/compiler/Dependencies.hpp"
 
+#include <cctype>
+
 std::vector<Dependency> depends_on(const BitStringType&) { return {}; }
 std::vector<Dependency> depends_on(const BooleanType&) { return {}; }
 std::vector<Dependency> depends_on(const CharacterStringType&) { return {}; }
@@ -32,24 +34,25 @@ std::vector<Dependency> depends_on(const OctetStringType&) { return {}; }
 std::vector<Dependency> depends_on(const RealType&) { return {}; }
 std::vector<Dependency> depends_on(const RelativeIRIType&) { return {}; }
 std::vector<Dependency> depends_on(const RelativeOIDType&) { return {}; }
-std::vector<Dependency> depends_on(const SequenceType& sequence)
+static std::vector<Dependency> collection_depends_on(const Collection& collection)
 {
     std::vector<Dependency> depends;
-    for (const ComponentType& component : sequence.components)
+    for (const ComponentType& component : collection.components)
     {
         const auto& additional = depends_on(component.named_type.type);
         depends.insert(depends.end(), additional.begin(), additional.end());
 
         if (component.default_value &&
             absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-            !is_enumerated(component.named_type.type))
+            !is_enumerated(without_tags(component.named_type.type)))
         {
             const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-            depends.push_back(Dependency{defined.reference, absl::nullopt});
+            depends.push_back(Dependency{defined.reference, absl::nullopt, true});
         }
     }
     return depends;
 }
+std::vector<Dependency> depends_on(const SequenceType& sequence) { return collection_depends_on(sequence); }
 std::vector<Dependency> depends_on(const SequenceOfType& sequence)
 {
     if (sequence.has_name)
@@ -61,16 +64,7 @@ std::vector<Dependency> depends_on(const SequenceOfType& sequence)
         return depends_on(*sequence.type);
     }
 }
-std::vector<Dependency> depends_on(const SetType& set)
-{
-    std::vector<Dependency> depends;
-    for (const ComponentType& component : set.components)
-    {
-        const auto& additional = depends_on(component.named_type.type);
-        depends.insert(depends.end(), additional.begin(), additional.end());
-    }
-    return depends;
-}
+std::vector<Dependency> depends_on(const SetType& set) { return collection_depends_on(set); }
 std::vector<Dependency> depends_on(const SetOfType& set)
 {
     if (set.has_name)
@@ -91,7 +85,7 @@ std::vector<Dependency> depends_on(const TimeOfDayType&) { return {}; }
 std::vector<Dependency> depends_on(const UTCTimeType&) { return {}; }
 std::vector<Dependency> depends_on(const DefinedType& defined)
 {
-    return {{defined.type_reference, defined.module_reference}};
+    return {{defined.type_reference, defined.module_reference, false}};
 }
 
 struct DependsOnHelper
@@ -109,7 +103,7 @@ std::vector<Dependency> depends_on(const Value& value)
 {
     if (absl::holds_alternative<DefinedValue>(value.value_selection))
     {
-        return {{absl::get<DefinedValue>(value.value_selection).reference, {}}};
+        return {{absl::get<DefinedValue>(value.value_selection).reference, {}, false}};
     };
     return {};
 }
@@ -140,6 +134,10 @@ void get_dependencies_recursive(const std::string& type_name, const std::string&
 {
     if (assignment_map.count(type_name) == 0)
     {
+        if (std::islower(static_cast<unsigned char>(type_name.front())))
+        {
+            return; // An imported value, or the item of an enumeration
+        }
         throw std::runtime_error("Unknown item in get_dependencies_recursive :" + type_name);
     }
 
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 2a2ebac..9ea024c 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -158,10 +158,43 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
 
     visited_names.insert(name);
 
+    auto is_defined_here = [&](const Dependency& dependency) -> bool {
+        if (dependency.module_reference && *dependency.module_reference != module.module_reference)
+        {
+            return false;
+        }
+        if (assignment_infos.count(dependency.name) > 0)
+        {
+            return true;
+        }
+        const bool is_imported_value =
+            std::any_of(module.imports.begin(), module.imports.end(), [&](const Import& import) {
+                return std::count(import.imported_values.begin(), import.imported_values.end(), dependency.name) > 0;
+            });
+        return !dependency.is_default_value && !is_imported_value;
+    };
+
+    auto resolve_all = [&](const std::vector<Dependency>& depends) {
+        for (const Dependency& dependency : depends)
+        {
+            if (!is_defined_here(dependency))
+            {
+                continue;
+            }
+
+            resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
+                                 ordered_assignment_infos);
+        }
+    };
+
     auto is_circular = [&](const std::vector<Dependency>& depends) -> bool {
         absl::flat_hash_set<Dependency> complete_depends;
         for (const Dependency& dependency : depends)
         {
+            if (!is_defined_here(dependency))
+            {
+                continue;
+            }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
             get_dependencies_recursive(dependency.name, module.module_reference, assignment_infos, complete_depends);
         }
@@ -215,16 +248,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         }
         else
         {
-            for (const Dependency& dependency : assignment.depends_on)
-            {
-                if (dependency.module_reference && dependency.module_reference != module.module_reference)
-                {
-                    continue;
-                }
-
-                resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                     ordered_assignment_infos);
-            }
+            resolve_all(assignment.depends_on);
         }
     }
     else if (is_type(assignment) && is_sequence(assigned_type))
@@ -234,18 +258,13 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         {
             if (component.default_value)
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
+                resolve_all(depends_on(component.named_type.type));
 
                 if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(resolve_type(tree, module.module_reference, component.named_type).type))
+                    !is_enumerated(concrete_type(component.named_type, module, tree).type))
                 {
                     const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                         visited_names, ordered_assignment_infos);
+                    resolve_all({Dependency{defined.reference, absl::nullopt, false}});
                 }
             }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
@@ -258,11 +277,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
             else
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
+                resolve_all(depends_on(component.named_type.type));
             }
         }
     }
@@ -273,18 +288,13 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         {
             if (component.default_value)
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
+                resolve_all(depends_on(component.named_type.type));
 
                 if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(resolve_type(tree, module.module_reference, component.named_type).type))
+                    !is_enumerated(concrete_type(component.named_type, module, tree).type))
                 {
                     const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                         visited_names, ordered_assignment_infos);
+                    resolve_all({Dependency{defined.reference, absl::nullopt, false}});
                 }
             }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
@@ -297,26 +307,21 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
             else
             {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
+                resolve_all(depends_on(component.named_type.type));
             }
         }
     }
+    else if (is_value(assignment) &&
+             is_enumerated(
+                 concrete_type(NamedType{name, absl::get<ValueAssignment>(assignment.specific).type}, module, tree)
+                     .type))
+    {
+        // The value is an item of the enumeration
+        resolve_all(depends_on(absl::get<ValueAssignment>(assignment.specific).type));
+    }
     else
     {
-        for (const Dependency& dependency : assignment.depends_on)
-        {
-            if (dependency.module_reference && dependency.module_reference != module.module_reference)
-            {
-                continue;
-            }
-
-            resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                 ordered_assignment_infos);
-        }
+        resolve_all(assignment.depends_on);
     }
 
     ordered_assignment_infos.push_back(assignment);
diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index c7f4109..106c2e1 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -229,6 +229,20 @@ NamedType resolve_type(const Asn1Tree& tree, const std::string& current_module_r
     return resolve_type_and_module(tree, current_module_reference, type_info).type;
 }
 
+NamedType concrete_type(const NamedType& named_type, const Module& module, const Asn1Tree& tree)
+{
+    const Type& type = without_tags(named_type.type);
+    if (!is_defined(type))
+    {
+        return NamedType{named_type.name, type};
+    }
+
+    const NamedTypeAndModule& resolved =
+        resolve_type_and_module(tree, module.module_reference, absl::get<DefinedType>(type));
+    return NamedType{"::fast_ber::" + resolved.module.module_reference + "::" + resolved.type.name,
+                     without_tags(resolved.type.type)};
+}
+
 bool exists(const Asn1Tree&, const Module& module, const std::string& reference)
 {
     for (const Assignment& assignemnt : module.assignments)
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index cd3bfde..73b0dd9 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -26,27 +26,6 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
     {
         CodeScope scope(block, true);
 
-        bool has_defaults = false;
-        for (const ComponentType& component : collection.components)
-        {
-            if (component.default_value)
-            {
-                std::string name = component.named_type.name;
-                name[0]          = std::toupper(name[0]);
-                block.add_line("struct DefaultValue" + name + " { constexpr static " +
-                               value_type(component.named_type.type, module, tree, component.named_type.name, {}) +
-                               " get_value() noexcept { return " +
-                               value_as_string(resolve_type(tree, module.module_reference, component.named_type),
-                                               *component.default_value) +
-                               "; } };");
-                has_defaults = true;
-            }
-        }
-        if (has_defaults)
-        {
-            block.add_line();
-        }
-
         int64_t tag_counter = 0;
 
         // Define child types
@@ -69,6 +48,31 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
             block.add_line();
         }
 
+        bool has_defaults = false;
+        for (const ComponentType& component : collection.components)
+        {
+            if (component.default_value)
+            {
+                std::string name = component.named_type.name;
+                name[0]          = std::toupper(name[0]);
+
+                const NamedType& value_named_type =
+                    concrete_type(NamedType{make_type_name(component.named_type.name, type_name),
+                                            component.named_type.type},
+                                  module, tree);
+                const std::string& constness = is_oid(value_named_type.type) ? "static " : "constexpr static ";
+                block.add_line("struct DefaultValue" + name + " { " + constness +
+                               value_type(value_named_type.type, module, tree, value_named_type.name) +
+                               " get_value() noexcept { return " +
+                               value_as_string(value_named_type, *component.default_value) + "; } };");
+                has_defaults = true;
+            }
+        }
+        if (has_defaults)
+        {
+            block.add_line();
+        }
+
         for (const ComponentType& component : collection.components)
         {
             std::string component_type = make_type_name(component.named_type.name, type_name);
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index e0e82d8..b907650 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -549,6 +549,7 @@ struct Dependency
 {
     std::string                 name;
     absl::optional<std::string> module_reference;
+    bool                        is_default_value; // May be the item of an enumeration, or imported
 
     template <typename H>
     friend H AbslHashValue(H h, const Dependency& d)
diff --git a/src/compiler/include/fast_ber/compiler/ResolveType.hpp b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
index e038b8b..869af3e 100644
--- a/src/compiler/include/fast_ber/compiler/ResolveType.hpp
+++ b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
@@ -31,6 +31,9 @@ NamedType resolve_type(const Asn1Tree& tree, const std::string& current_module_r
                        const DefinedType& original_defined);
 NamedType resolve_type(const Asn1Tree& tree, const std::string& current_module_reference, const NamedType& type);
 
+// The type without tags once references are followed, and its name in C++
+NamedType concrete_type(const NamedType& named_type, const Module& module, const Asn1Tree& tree);
+
 bool exists(const Asn1Tree& tree, const Module& module, const std::string& reference);
 bool exists(const Asn1Tree& tree, const std::string& module_reference, const std::string& reference);
 bool exists(const Asn1Tree& tree, const std::string& current_module_reference, const DefinedType& defined);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 3728a0f..7fd55f6 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -43,18 +43,16 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
             log_debug(tree, "Creating value assignment: " + module.module_reference + "." + assignment.name);
 
             const ValueAssignment& value_assign = absl::get<ValueAssignment>(assignment.specific);
-            const Type&            assigned_to_type =
-                (is_defined(value_assign.type))
-                               ? type(resolve(tree, module.module_reference, absl::get<DefinedType>(value_assign.type)))
-                               : value_assign.type;
+            const NamedType&       named_type =
+                concrete_type(NamedType{assignment.name, value_assign.type}, module, tree);
 
             std::string constness =
-                is_oid(assigned_to_type) ? std::string("static const ") : std::string("static constexpr ");
+                is_oid(named_type.type) ? std::string("static const ") : std::string("static constexpr ");
 
             std::string result =
-                constness + value_type(value_assign.type, module, tree) + " " + assignment.name + " = ";
+                constness + value_type(named_type.type, module, tree, named_type.name) + " " + assignment.name + " = ";
 
-            result += value_as_string(NamedType{assignment.name, assigned_to_type}, value_assign.value) + ";\n";
+            result += value_as_string(named_type, value_assign.value) + ";\n";
             return result;
         }
         else if (absl::holds_alternative<TypeAssignment>(assignment.specific))
-- 
2.43.0


From 4ec4521c984dbd4254457c9c2d91919d67dc5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 30/87] fix: components named like their type, or like a local
 variable, did not compile

---
 src/compiler/CppGeneration.cpp                   |  6 ++++++
 src/compiler/EncodeDecode.cpp                    |  2 +-
 src/compiler/GenerateChoice.cpp                  | 12 ++++++------
 src/compiler/include/fast_ber/compiler/Visit.hpp | 10 +++++-----
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/compiler/CppGeneration.cpp b/src/compiler/CppGeneration.cpp
index dbe48c1..f309d59 100644
--- a/src/compiler/CppGeneration.cpp
+++ b/src/compiler/CppGeneration.cpp
@@ -67,6 +67,12 @@ std::string make_type_name(std::string name, absl::string_view parent_name)
 {
     assert(!name.empty());
     name[0] = std::toupper(name[0]);
+
+    const std::size_t scope = parent_name.rfind("::");
+    if (scope != absl::string_view::npos)
+    {
+        parent_name.remove_prefix(scope + 2);
+    }
     if (name == parent_name) // C++ types may not share a name with their enclosing class
     {
         return name + '_';
diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 4b36a89..4699baa 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -51,7 +51,7 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
 
         for (const ComponentType& component : collection.components)
         {
-            block.add_line("res = " + component.named_type.name + "." +
+            block.add_line("res = this->" + component.named_type.name + "." +
                            make_component_function("encode", component.named_type, module, tree) + "(content);");
             block.add_line("if (!res.success)");
             {
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index bdf4e9e..9af6c1b 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -16,7 +16,7 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
             type_list += ", ";
         is_first = false;
 
-        type_list += make_type_name(named_type.name);
+        type_list += make_type_name(named_type.name, name);
     }
 
     const auto  id = identifier_override.empty() ? identifier(choice, module, tree).name() : identifier_override;
@@ -34,13 +34,13 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
             if (module.tagging_default == TaggingMode::automatic)
             {
                 std::string choice_id = Identifier(Class::context_specific, tag_counter++).name();
-                block.add_block(create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree,
+                block.add_block(create_type_assignment(make_type_name(named_type.name, name), named_type.type, module, tree,
                                                        choice_id, false));
             }
             else
             {
                 block.add_block(
-                    create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree, {}, false));
+                    create_type_assignment(make_type_name(named_type.name, name), named_type.type, module, tree, {}, false));
             }
         }
         block.add_line("using Storage = " + storage + ';');
@@ -172,8 +172,8 @@ CodeBlock create_choice_getters(const std::string& name, const ChoiceType& choic
         std::size_t i = 0;
         for (const NamedType& named_type : choice.choices)
         {
-            block.add_line(constness + name + "::" + make_type_name(named_type.name, name) + "& get_impl(" + constness +
-                           name + "& choice, std::integral_constant<std::size_t, " + std::to_string(i) + ">) noexcept");
+            block.add_line(constness + name + "::" + make_type_name(named_type.name, name) + "& get_impl(" +
+                           constness + name + "& choice, std::integral_constant<std::size_t, " + std::to_string(i) + ">) noexcept");
             {
                 CodeScope scope(block);
                 block.add_line("return fast_ber::get<" + std::to_string(i) + ">(choice.impl());");
@@ -229,7 +229,7 @@ CodeBlock create_choice_holds_alternative(const std::string& name, const ChoiceT
         std::size_t i = 0;
         for (const auto& named_type : choice.choices)
         {
-            const std::string choice_type_name = name + "::" + make_type_name(named_type.name);
+            const std::string choice_type_name = name + "::" + make_type_name(named_type.name, name);
             block.add_line("if (std::is_same<T, " + choice_type_name + ">::value && c.index() == " + std::to_string(i) +
                            ") { return true; }");
             ++i;
diff --git a/src/compiler/include/fast_ber/compiler/Visit.hpp b/src/compiler/include/fast_ber/compiler/Visit.hpp
index b4e1704..064f47c 100644
--- a/src/compiler/include/fast_ber/compiler/Visit.hpp
+++ b/src/compiler/include/fast_ber/compiler/Visit.hpp
@@ -13,7 +13,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type));
         for (const ComponentType& component : sequence.components)
         {
-            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name);
+            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name, context_namespace);
             block.add_block(
                 visit_all_types(tree, module, component.named_type.type, name, std::forward<Function>(func)));
         }
@@ -23,7 +23,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SetType& set = absl::get<SetType>(absl::get<BuiltinType>(type));
         for (const ComponentType& component : set.components)
         {
-            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name);
+            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name, context_namespace);
             block.add_block(
                 visit_all_types(tree, module, component.named_type.type, name, std::forward<Function>(func)));
         }
@@ -33,7 +33,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
         if (sequence.has_name)
         {
-            const std::string name = context_namespace + "::" + make_type_name(sequence.named_type->name);
+            const std::string name = context_namespace + "::" + make_type_name(sequence.named_type->name, context_namespace);
             block.add_block(
                 visit_all_types(tree, module, sequence.named_type->type, name, std::forward<Function>(func)));
         }
@@ -43,7 +43,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SetOfType& set = absl::get<SetOfType>(absl::get<BuiltinType>(type));
         if (set.has_name)
         {
-            const std::string name = context_namespace + "::" + make_type_name(set.named_type->name);
+            const std::string name = context_namespace + "::" + make_type_name(set.named_type->name, context_namespace);
             block.add_block(visit_all_types(tree, module, set.named_type->type, name, std::forward<Function>(func)));
         }
     }
@@ -52,7 +52,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
         for (const NamedType& named_type : choice.choices)
         {
-            const std::string name = context_namespace + "::" + make_type_name(named_type.name);
+            const std::string name = context_namespace + "::" + make_type_name(named_type.name, context_namespace);
             block.add_block(visit_all_types(tree, module, named_type.type, name, std::forward<Function>(func)));
         }
     }
-- 
2.43.0


From ec93de6e91e6549d739adfac1630aa6c3882ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 31/87] fix: generated code could not be included in two
 translation units

---
 src/compiler/GenerateChoice.cpp  |  8 ++++----
 src/compiler/GenerateHelpers.cpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index 9af6c1b..4ce0811 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -172,7 +172,7 @@ CodeBlock create_choice_getters(const std::string& name, const ChoiceType& choic
         std::size_t i = 0;
         for (const NamedType& named_type : choice.choices)
         {
-            block.add_line(constness + name + "::" + make_type_name(named_type.name, name) + "& get_impl(" +
+            block.add_line("inline " + constness + name + "::" + make_type_name(named_type.name, name) + "& get_impl(" +
                            constness + name + "& choice, std::integral_constant<std::size_t, " + std::to_string(i) + ">) noexcept");
             {
                 CodeScope scope(block);
@@ -246,7 +246,7 @@ CodeBlock create_choice_helpers(const ChoiceType&, const std::string& name, bool
 {
     std::string maybe_semicolon = forward_definition_only ? ";" : "";
     CodeBlock   block;
-    block.add_line("bool operator==(const " + name + "& lhs, const " + name + "& rhs) noexcept" + maybe_semicolon);
+    block.add_line("inline bool operator==(const " + name + "& lhs, const " + name + "& rhs) noexcept" + maybe_semicolon);
     if (!forward_definition_only)
     {
         CodeScope scope1(block);
@@ -254,7 +254,7 @@ CodeBlock create_choice_helpers(const ChoiceType&, const std::string& name, bool
     }
     block.add_line();
 
-    block.add_line("bool operator!=(const " + name + "& lhs, const " + name + "& rhs) noexcept" + maybe_semicolon);
+    block.add_line("inline bool operator!=(const " + name + "& lhs, const " + name + "& rhs) noexcept" + maybe_semicolon);
     if (!forward_definition_only)
     {
         CodeScope scope1(block);
@@ -262,7 +262,7 @@ CodeBlock create_choice_helpers(const ChoiceType&, const std::string& name, bool
     }
     block.add_line();
 
-    block.add_line("std::ostream& operator<<(std::ostream& os, const " + name + "& object)" + maybe_semicolon);
+    block.add_line("inline std::ostream& operator<<(std::ostream& os, const " + name + "& object)" + maybe_semicolon);
     if (!forward_definition_only)
     {
         CodeScope scope1(block);
diff --git a/src/compiler/GenerateHelpers.cpp b/src/compiler/GenerateHelpers.cpp
index 9456c1c..95251e1 100644
--- a/src/compiler/GenerateHelpers.cpp
+++ b/src/compiler/GenerateHelpers.cpp
@@ -7,7 +7,7 @@ template <typename CollectionType>
 CodeBlock create_ostream_operators(const CollectionType& collection, const std::string& full_name)
 {
     CodeBlock block;
-    block.add_line("std::ostream& operator<<(std::ostream& os, const " + full_name + "& object)");
+    block.add_line("inline std::ostream& operator<<(std::ostream& os, const " + full_name + "& object)");
     {
         CodeScope scope1(block);
         {
@@ -38,7 +38,7 @@ template <typename CollectionType>
 CodeBlock create_collection_equality_operators(const CollectionType& collection, const std::string& name)
 {
     CodeBlock block;
-    block.add_line("bool operator==(const " + name + "& lhs, const " + name + "& rhs) noexcept");
+    block.add_line("inline bool operator==(const " + name + "& lhs, const " + name + "& rhs) noexcept");
     {
         CodeScope scope1(block);
 
@@ -57,7 +57,7 @@ CodeBlock create_collection_equality_operators(const CollectionType& collection,
     }
     block.add_line();
 
-    block.add_line("bool operator!=(const " + name + "& lhs, const " + name + "& rhs) noexcept");
+    block.add_line("inline bool operator!=(const " + name + "& lhs, const " + name + "& rhs) noexcept");
     {
         CodeScope scope1(block);
         block.add_line("return !(lhs == rhs);");
@@ -71,21 +71,21 @@ CodeBlock create_collection_equality_operators(const CollectionType& collection,
 CodeBlock create_alias_helpers(const std::string& name)
 {
     CodeBlock block;
-    block.add_line("bool operator==(const " + name + "& lhs, const " + name + "& rhs) noexcept");
+    block.add_line("inline bool operator==(const " + name + "& lhs, const " + name + "& rhs) noexcept");
     {
         CodeScope scope1(block);
         block.add_line("return lhs.get_base() == rhs.get_base();");
     }
     block.add_line();
 
-    block.add_line("bool operator!=(const " + name + "& lhs, const " + name + "& rhs) noexcept");
+    block.add_line("inline bool operator!=(const " + name + "& lhs, const " + name + "& rhs) noexcept");
     {
         CodeScope scope1(block);
         block.add_line("return !(lhs == rhs);");
     }
     block.add_line();
 
-    block.add_line("std::ostream& operator<<(std::ostream& os, const " + name + "& object)");
+    block.add_line("inline std::ostream& operator<<(std::ostream& os, const " + name + "& object)");
     {
         CodeScope scope1(block);
         block.add_line("return os << object.get_base();");
@@ -113,7 +113,7 @@ CodeBlock create_helper_functions_impl(const Asn1Tree&, const Module&, const Typ
         const std::string     values_name = name + "Values";
 
         CodeBlock block;
-        block.add_line("const char* to_string(" + values_name + " e) noexcept");
+        block.add_line("inline const char* to_string(" + values_name + " e) noexcept");
         {
             CodeScope scope(block);
             block.add_line("switch (e)");
@@ -128,7 +128,7 @@ CodeBlock create_helper_functions_impl(const Asn1Tree&, const Module&, const Typ
             }
         }
 
-        block.add_line("std::ostream& operator<<(std::ostream& os, " + values_name + " object)");
+        block.add_line("inline std::ostream& operator<<(std::ostream& os, " + values_name + " object)");
         {
             CodeScope scope(block);
             block.add_line("os << to_string(object);");
-- 
2.43.0


From 8e6787d6270266c84265a71193412caeaa3137c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 32/87] fix: an OBJECT IDENTIFIER could not be assigned to one
 with another tag

---
 include/fast_ber/ber_types/ObjectIdentifier.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fast_ber/ber_types/ObjectIdentifier.hpp b/include/fast_ber/ber_types/ObjectIdentifier.hpp
index 9042b37..cc794f1 100644
--- a/include/fast_ber/ber_types/ObjectIdentifier.hpp
+++ b/include/fast_ber/ber_types/ObjectIdentifier.hpp
@@ -32,6 +32,11 @@ class ObjectIdentifier
     ObjectIdentifier(ObjectIdentifier<Identifier>&& rhs) noexcept = default;
     ObjectIdentifier(const ObjectIdentifierComponents& oid) noexcept { assign(oid); }
     ObjectIdentifier(const std::initializer_list<int64_t>& oid) noexcept { assign(ObjectIdentifierComponents(oid)); }
+    template <typename Identifier2>
+    ObjectIdentifier(const ObjectIdentifier<Identifier2>& rhs) noexcept
+    {
+        m_contents.assign_content(rhs.m_contents.content());
+    }
     explicit ObjectIdentifier(BerView view) { decode(view); }
     ~ObjectIdentifier() noexcept = default;
 
-- 
2.43.0


From 9fda27455efb88b52301e9da675b67e5a9fb05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 33/87] fix: ASN.1 values and enumeration numbers were
 translated to other values

---
 src/compiler/ReorderAssignments.cpp           |  16 +-
 src/compiler/TypeAsString.cpp                 |  22 +-
 src/compiler/ValueAsString.cpp                | 417 +++++++++++++++---
 src/compiler/ValueType.cpp                    |   2 +-
 src/compiler/asn_compiler.yacc                |  26 +-
 .../fast_ber/compiler/CompilerTypes.hpp       |   3 +
 .../fast_ber/compiler/ValueAsString.hpp       |  11 +-
 src/compiler_main/CompilerMain.cpp            |   6 +-
 8 files changed, 398 insertions(+), 105 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 9ea024c..e0757ec 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -3,6 +3,7 @@
 #include "fast_ber/compiler/Logging.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
+#include "fast_ber/compiler/ValueAsString.hpp"
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
@@ -261,7 +262,8 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                 resolve_all(depends_on(component.named_type.type));
 
                 if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(concrete_type(component.named_type, module, tree).type))
+                    !is_item_of_type(concrete_type(component.named_type, module, tree).type,
+                                     absl::get<DefinedValue>(component.default_value->value_selection).reference))
                 {
                     const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
                     resolve_all({Dependency{defined.reference, absl::nullopt, false}});
@@ -291,7 +293,8 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                 resolve_all(depends_on(component.named_type.type));
 
                 if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(concrete_type(component.named_type, module, tree).type))
+                    !is_item_of_type(concrete_type(component.named_type, module, tree).type,
+                                     absl::get<DefinedValue>(component.default_value->value_selection).reference))
                 {
                     const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
                     resolve_all({Dependency{defined.reference, absl::nullopt, false}});
@@ -312,12 +315,11 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         }
     }
     else if (is_value(assignment) &&
-             is_enumerated(
-                 concrete_type(NamedType{name, absl::get<ValueAssignment>(assignment.specific).type}, module, tree)
-                     .type))
+             absl::holds_alternative<DefinedValue>(value(assignment).value.value_selection) &&
+             is_item_of_type(concrete_type(NamedType{name, value(assignment).type}, module, tree).type,
+                             absl::get<DefinedValue>(value(assignment).value.value_selection).reference))
     {
-        // The value is an item of the enumeration
-        resolve_all(depends_on(absl::get<ValueAssignment>(assignment.specific).type));
+        resolve_all(depends_on(value(assignment).type));
     }
     else
     {
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 73b0dd9..43de262 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -8,7 +8,9 @@
 
 #include "absl/container/flat_hash_set.h"
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 
 template <typename Type>
 std::string identifier_template_params(const Type&, const Module&, const Asn1Tree&,
@@ -64,7 +66,7 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
                 block.add_line("struct DefaultValue" + name + " { " + constness +
                                value_type(value_named_type.type, module, tree, value_named_type.name) +
                                " get_value() noexcept { return " +
-                               value_as_string(value_named_type, *component.default_value) + "; } };");
+                               value_as_string(value_named_type, *component.default_value, module, tree) + "; } };");
                 has_defaults = true;
             }
         }
@@ -432,18 +434,16 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     else if (is_enumerated(assignment_type))
     {
         const EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(assignment_type));
-        block.add_line("enum class " + name + "Values");
+        const std::vector<int64_t>& numbers = enumeration_numbers(enumerated, module, tree);
+
+        const bool is_int = std::all_of(numbers.begin(), numbers.end(), [](int64_t number) {
+            return number >= std::numeric_limits<int32_t>::min() && number <= std::numeric_limits<int32_t>::max();
+        });
+        block.add_line("enum class " + name + "Values" + (is_int ? "" : " : int64_t"));
         CodeScope scope(block, true);
-        for (const EnumerationValue& enum_value : enumerated.enum_values)
+        for (std::size_t i = 0; i < numbers.size(); i++)
         {
-            if (enum_value.value)
-            {
-                block.add_line(enum_value.name + " = " + std::to_string(*enum_value.value) + ',');
-            }
-            else
-            {
-                block.add_line(enum_value.name + ',');
-            }
+            block.add_line(enumerated.enum_values[i].name + " = " + cpp_integer(numbers[i]) + ',');
         }
     }
     else if (is_set_of(assignment_type))
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 334c914..6ba9281 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -1,129 +1,404 @@
 #include "fast_ber/compiler/ValueAsString.hpp"
 
+#include "fast_ber/compiler/ResolveType.hpp"
+
+#include <algorithm>
+#include <cstdio>
 #include <iostream>
+#include <limits>
 
-std::string cpp_value(const HexStringValue& hex)
+std::string cpp_integer(int64_t integer)
 {
-    std::string res = "\"";
-    size_t      i   = 0;
+    if (integer == std::numeric_limits<int64_t>::min())
+    {
+        return "(" + std::to_string(integer + 1) + " - 1)";
+    }
+    return std::to_string(integer);
+}
 
-    if (hex.value.length() % 2 == 1)
+static std::string cpp_real(double real)
+{
+    char buffer[64];
+    std::snprintf(buffer, sizeof(buffer), "%.17g", real);
+    std::string result(buffer);
+    if (result.find_first_of(".e") == std::string::npos)
     {
-        const std::string& byte = std::string(hex.value.begin(), hex.value.begin() + 1);
-        res += "\\";
-        res += std::to_string(std::stoi(byte, nullptr, 16));
-        i++;
+        result += ".0";
     }
+    return result;
+}
 
-    for (; i < hex.value.length(); i += 2)
+static std::string cpp_string_view(const std::string& contents)
+{
+    std::string res = "absl::string_view(\"";
+    for (char c : contents)
     {
-        const std::string& byte = std::string(hex.value.begin() + i, hex.value.begin() + i + 2);
-        res += "\\";
-        res += std::to_string(std::stoi(byte, nullptr, 16));
+        if (c >= ' ' && c <= '~' && c != '"' && c != '\\' && c != '?')
+        {
+            res += c;
+        }
+        else
+        {
+            char buffer[5];
+            std::snprintf(buffer, sizeof(buffer), "\\%03o", static_cast<unsigned>(static_cast<unsigned char>(c)));
+            res += buffer;
+        }
     }
+    return res + "\", " + std::to_string(contents.size()) + ")";
+}
 
-    return res + "\"";
+// X.680 Clause 12.14: The text between the quotes, where a quote is written twice. White space around new lines is
+// not part of the string
+static std::string contents(const CharStringValue& cstring)
+{
+    const std::string& text = cstring.value.substr(1, cstring.value.size() - 2);
+    std::string        res;
+    for (size_t i = 0; i < text.size(); i++)
+    {
+        if (text[i] == '\n' || text[i] == '\r')
+        {
+            res.erase(res.find_last_not_of(" \t\v\f") + 1);
+            while (i + 1 < text.size() && std::isspace(static_cast<unsigned char>(text[i + 1])))
+            {
+                i++;
+            }
+            continue;
+        }
+
+        res += text[i];
+        if (text[i] == '"')
+        {
+            i++;
+        }
+    }
+    return res;
 }
 
-std::string value_as_string(const NamedType& value_type, const Value& value)
+// The contents octets of a string of bits, without the count of unused bits
+static std::string contents(const BitStringValue& bits)
 {
-    assert(!is_defined(value_type.type)); // value_type should be concrete
+    std::string res((bits.value.size() + 7) / 8, '\0');
+    for (size_t i = 0; i < bits.value.size(); i++)
+    {
+        if (bits.value[i] == '1')
+        {
+            res[i / 8] = static_cast<char>(res[i / 8] | (0x80 >> (i % 8)));
+        }
+    }
+    return res;
+}
 
-    std::string result;
-    if (is_oid(value_type.type))
+static std::string contents(const HexStringValue& hex)
+{
+    std::string digits = hex.value;
+    if (digits.size() % 2 == 1)
+    {
+        digits += '0'; // X.680 Clause 23.11: Completed at the end
+    }
+
+    std::string res;
+    for (size_t i = 0; i < digits.size(); i += 2)
+    {
+        res += static_cast<char>(std::stoi(digits.substr(i, 2), nullptr, 16));
+    }
+    return res;
+}
+
+static bool find_value(const std::string& reference, const Module& module, const Asn1Tree& tree,
+                       const ValueAssignment*& value_assignment, const Module*& value_module)
+{
+    if (exists(tree, module, reference))
+    {
+        const Assignment& assignment = resolve(tree, module, reference);
+        if (!is_value(assignment))
+        {
+            return false;
+        }
+        value_assignment = &value(assignment);
+        value_module     = &module;
+        return true;
+    }
+
+    for (const Import& import : module.imports)
+    {
+        if (std::count(import.imported_values.begin(), import.imported_values.end(), reference) > 0 &&
+            import.module_reference != module.module_reference)
+        {
+            return find_value(reference, find_module(tree, import.module_reference), tree, value_assignment,
+                              value_module);
+        }
+    }
+    return false;
+}
+
+static bool find_well_known_arc(const std::string& name, const std::vector<int64_t>& parents, int64_t& number)
+{
+    struct Arc
+    {
+        std::vector<int64_t> parents;
+        const char*          name;
+        int64_t              number;
+    };
+    static const std::vector<Arc> arcs = {{{}, "itu_t", 0},
+                                          {{}, "ccitt", 0},
+                                          {{}, "iso", 1},
+                                          {{}, "joint_iso_itu_t", 2},
+                                          {{}, "joint_iso_ccitt", 2},
+                                          {{0}, "recommendation", 0},
+                                          {{0}, "question", 1},
+                                          {{0}, "administration", 2},
+                                          {{0}, "network_operator", 3},
+                                          {{0}, "identified_organization", 4},
+                                          {{1}, "standard", 0},
+                                          {{1}, "registration_authority", 1},
+                                          {{1}, "member_body", 2},
+                                          {{1}, "identified_organization", 3}};
+    for (const Arc& arc : arcs)
+    {
+        if (arc.name == name && arc.parents == parents)
+        {
+            number = arc.number;
+            return true;
+        }
+    }
+    return false;
+}
+
+static int64_t integer_value(const std::string& reference, const Module& module, const Asn1Tree& tree, int depth = 0)
+{
+    const ValueAssignment* value_assignment = nullptr;
+    const Module*          value_module     = nullptr;
+    if (depth > 100 || !find_value(reference, module, tree, value_assignment, value_module))
+    {
+        throw std::runtime_error("Reference to undefined value: " + reference);
+    }
+
+    const Value& value = value_assignment->value;
+    if (absl::holds_alternative<DefinedValue>(value.value_selection))
+    {
+        return integer_value(absl::get<DefinedValue>(value.value_selection).reference, *value_module, tree, depth + 1);
+    }
+    if (!absl::holds_alternative<int64_t>(value.value_selection))
+    {
+        throw std::runtime_error("Value is not an integer: " + reference);
+    }
+    return absl::get<int64_t>(value.value_selection);
+}
+
+static std::vector<int64_t> oid_components(const Value& oid, const Module& module, const Asn1Tree& tree, int depth = 0)
+{
+    if (depth > 100)
+    {
+        throw std::runtime_error("Circular definition of object identifier");
+    }
+
+    const ValueAssignment* value_assignment = nullptr;
+    const Module*          value_module     = nullptr;
+
+    if (absl::holds_alternative<DefinedValue>(oid.value_selection))
+    {
+        const std::string& reference = absl::get<DefinedValue>(oid.value_selection).reference;
+        if (!find_value(reference, module, tree, value_assignment, value_module))
+        {
+            throw std::runtime_error("Reference to undefined value: " + reference);
+        }
+        return oid_components(value_assignment->value, *value_module, tree, depth + 1);
+    }
+
+    std::vector<int64_t> result;
+    for (const ObjectIdComponentValue& component : ObjectIdComponents(oid).components)
     {
-        result += "ObjectIdentifier<>{";
-        try
+        int64_t number = 0;
+        if (component.value)
+        {
+            result.push_back(*component.value);
+        }
+        else if (find_well_known_arc(*component.name, result, number))
+        {
+            result.push_back(number);
+        }
+        else if (find_value(*component.name, module, tree, value_assignment, value_module))
+        {
+            if (is_integer(concrete_type(NamedType{*component.name, value_assignment->type}, *value_module, tree).type))
+            {
+                result.push_back(integer_value(*component.name, module, tree));
+            }
+            else
+            {
+                const std::vector<int64_t>& others =
+                    oid_components(value_assignment->value, *value_module, tree, depth + 1);
+                result.insert(result.end(), others.begin(), others.end());
+            }
+        }
+        else
         {
-            const ObjectIdComponents& object_id = ObjectIdComponents(value);
+            std::cerr << "Warning: The number of object identifier component [" + *component.name + "] is not known\n";
+            result.push_back(0);
+        }
+    }
+    return result;
+}
 
-            for (size_t i = 0; i < object_id.components.size(); i++)
+std::vector<int64_t> enumeration_numbers(const EnumeratedType& enumerated, const Module& module, const Asn1Tree& tree)
+{
+    std::vector<int64_t> numbers(enumerated.enum_values.size());
+    std::vector<int64_t> used;
+    for (std::size_t i = 0; i < numbers.size(); i++)
+    {
+        const EnumerationValue& item = enumerated.enum_values[i];
+        if (item.value)
+        {
+            numbers[i] = item.reference.empty() ? *item.value : integer_value(item.reference, module, tree);
+            if (i < enumerated.root_size)
             {
-                if (object_id.components[i].value)
-                {
-                    result += std::to_string(*object_id.components[i].value);
-                }
-                else
-                {
-                    result += std::to_string(0);
-                }
+                used.push_back(numbers[i]);
+            }
+        }
+    }
 
-                if (i < object_id.components.size() - 1)
-                {
-                    result += ", ";
-                }
+    // X.680 Clause 20.3 and 20.6: Items without a number get the next one which is not used
+    int64_t next = 0;
+    for (std::size_t i = 0; i < numbers.size(); i++)
+    {
+        if (i == enumerated.root_size)
+        {
+            next = 0;
+        }
+        if (!enumerated.enum_values[i].value)
+        {
+            while (std::count(used.begin(), used.end(), next) > 0)
+            {
+                next++;
             }
+            numbers[i] = next;
         }
-        catch (const std::runtime_error& e)
+        if (i >= enumerated.root_size)
         {
-            std::cerr << std::string("Warning: Value is not an object identifier : ") + e.what() << std::endl;
-            return "";
+            next = std::max(next, numbers[i] + 1);
         }
-        result += "}";
+        used.push_back(numbers[i]);
     }
-    else if (is_bit_string(value_type.type))
+
+    for (std::size_t i = 0; i < numbers.size(); i++)
     {
-        if (absl::holds_alternative<BitStringValue>(value.value_selection))
+        for (std::size_t j = 0; j < i; j++)
         {
-            const BitStringValue& bstring = absl::get<BitStringValue>(value.value_selection);
-            (void)bstring; // TODO: convert bstring to cstring
-            result += "\"\"";
+            if (numbers[i] == numbers[j] || enumerated.enum_values[i].name == enumerated.enum_values[j].name)
+            {
+                throw std::runtime_error("Duplicated item in enumeration: " + enumerated.enum_values[i].name);
+            }
         }
-        else
+    }
+    return numbers;
+}
+
+bool is_item_of_type(const Type& type, const std::string& reference)
+{
+    if (is_enumerated(type))
+    {
+        const std::vector<EnumerationValue>& items =
+            absl::get<EnumeratedType>(absl::get<BuiltinType>(type)).enum_values;
+        return std::any_of(items.begin(), items.end(),
+                           [&](const EnumerationValue& item) { return item.name == reference; });
+    }
+    if (is_integer(type))
+    {
+        const std::vector<NamedNumber>& numbers = absl::get<IntegerType>(absl::get<BuiltinType>(type)).named_numbers;
+        return std::any_of(numbers.begin(), numbers.end(),
+                           [&](const NamedNumber& number) { return number.name == reference; });
+    }
+    return false;
+}
+
+std::string value_as_string(const NamedType& value_type, const Value& value, const Module& module, const Asn1Tree& tree)
+{
+    assert(!is_defined(value_type.type)); // value_type should be concrete
+
+    if (is_oid(value_type.type))
+    {
+        std::string result = "ObjectIdentifier<>{";
+        for (int64_t component : oid_components(value, module, tree))
         {
-            result += "\"\"";
+            if (result.back() != '{')
+            {
+                result += ", ";
+            }
+            result += cpp_integer(component);
         }
+        return result + "}";
     }
-    else if (is_enumerated(value_type.type))
+    else if (absl::holds_alternative<DefinedValue>(value.value_selection))
     {
-        if (absl::holds_alternative<DefinedValue>(value.value_selection))
+        const std::string& reference = absl::get<DefinedValue>(value.value_selection).reference;
+        if (is_enumerated(value_type.type) && is_item_of_type(value_type.type, reference))
         {
-            const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-            result += value_type.name + "Values::" + defined.reference;
+            return value_type.name + "Values::" + reference;
         }
-        else
+        if (is_integer(value_type.type) && is_item_of_type(value_type.type, reference))
         {
-            throw std::runtime_error("Unexpected Enumerated type");
+            for (const NamedNumber& number :
+                 absl::get<IntegerType>(absl::get<BuiltinType>(value_type.type)).named_numbers)
+            {
+                if (number.name == reference)
+                {
+                    return cpp_integer(number.reference.empty() ? number.number
+                                                                : integer_value(number.reference, module, tree));
+                }
+            }
+        }
+
+        const ValueAssignment* value_assignment = nullptr;
+        const Module*          value_module     = nullptr;
+        if (!find_value(reference, module, tree, value_assignment, value_module))
+        {
+            throw std::runtime_error("Reference to undefined value: " + reference);
         }
+        return "::fast_ber::" + value_module->module_reference + "::" + reference;
     }
-    else if (absl::holds_alternative<std::string>(value.value_selection))
+    else if (is_enumerated(value_type.type))
     {
-        const std::string& string = absl::get<std::string>(value.value_selection);
-        result += string;
+        throw std::runtime_error("Unexpected Enumerated type");
+    }
+    else if (absl::holds_alternative<BitStringValue>(value.value_selection))
+    {
+        const BitStringValue& bits   = absl::get<BitStringValue>(value.value_selection);
+        std::string           octets = contents(bits);
+        if (is_bit_string(value_type.type))
+        {
+            octets.insert(octets.begin(), static_cast<char>((8 - bits.value.size() % 8) % 8));
+        }
+        return cpp_string_view(octets);
     }
     else if (absl::holds_alternative<HexStringValue>(value.value_selection))
     {
-        const HexStringValue& hstring = absl::get<HexStringValue>(value.value_selection);
-        result += "absl::string_view(" + cpp_value(hstring) + ")";
+        const HexStringValue& hex    = absl::get<HexStringValue>(value.value_selection);
+        std::string           octets = contents(hex);
+        if (is_bit_string(value_type.type))
+        {
+            octets.insert(octets.begin(), static_cast<char>((hex.value.size() % 2) * 4));
+        }
+        return cpp_string_view(octets);
     }
     else if (absl::holds_alternative<CharStringValue>(value.value_selection))
     {
-        const CharStringValue& cstring = absl::get<CharStringValue>(value.value_selection);
-        result += "absl::string_view(" + cstring.value + ")";
+        return cpp_string_view(contents(absl::get<CharStringValue>(value.value_selection)));
     }
     else if (absl::holds_alternative<int64_t>(value.value_selection))
     {
-        const int64_t integer = absl::get<int64_t>(value.value_selection);
-        result += std::to_string(integer);
-    }
-    else if (absl::holds_alternative<DefinedValue>(value.value_selection))
-    {
-        const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-        result += defined.reference;
+        return cpp_integer(absl::get<int64_t>(value.value_selection));
     }
     else if (absl::holds_alternative<BooleanValue>(value.value_selection))
     {
-        const BooleanValue& boolean = absl::get<BooleanValue>(value.value_selection);
-        result += (boolean.value) ? "true" : "false";
+        return absl::get<BooleanValue>(value.value_selection).value ? "true" : "false";
     }
     else if (absl::holds_alternative<double>(value.value_selection))
     {
-        const double& real = absl::get<double>(value.value_selection);
-        result += std::to_string(real);
+        return cpp_real(absl::get<double>(value.value_selection));
     }
-    else
+    else if (absl::holds_alternative<NullValue>(value.value_selection))
     {
-        throw std::runtime_error("Strange value assign");
+        return "nullptr";
     }
-    return result;
+
+    throw std::runtime_error("Strange value assign");
 }
diff --git a/src/compiler/ValueType.cpp b/src/compiler/ValueType.cpp
index bf4588d..7ebd0ac 100644
--- a/src/compiler/ValueType.cpp
+++ b/src/compiler/ValueType.cpp
@@ -86,7 +86,7 @@ std::string value_type(const IRIType&, const Module&, const Asn1Tree&, const std
 }
 std::string value_type(const NullType&, const Module&, const Asn1Tree&, const std::string&, const std::string&)
 {
-    return "nullptr_t";
+    return "std::nullptr_t";
 }
 std::string value_type(const ObjectClassFieldType&, const Module&, const Asn1Tree&, const std::string&,
                        const std::string&)
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index b4d5d7f..0e3697e 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1036,11 +1036,11 @@ NamedType:
 
 ValueWithoutTypeIdentifier:
     BooleanValue
-    { std::cerr << std::string("Warning: Unhandled field: BooleanValue\n"); }
+    { $$.value_selection = $1; }
 |   IRIValue
     { std::cerr << std::string("Warning: Unhandled field: IRIValue\n"); }
 |   ASN_NULL
-    { std::cerr << std::string("Warning: Unhandled field: ASN_NULL\n"); }
+    { $$.value_selection = NullValue{}; }
 |   TimeValue
     { std::cerr << std::string("Warning: Unhandled field: TimeValue\n"); }
 |   bstring
@@ -1054,7 +1054,7 @@ ValueWithoutTypeIdentifier:
 |   DefinedValue
     { $$.value_selection = $1; }
 |   GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
-    { $$.value_selection = NamedNumber{$1, $3}; }
+    { $$.value_selection = NamedNumber{$1, $3, {}}; }
 |   ":"
 |   SignedNumber
     { $$.value_selection = $1; }
@@ -1135,9 +1135,9 @@ NamedNumberList:
 
 NamedNumber:
     identifier "(" SignedNumber ")"
-    { $$ = NamedNumber{ $1, $3 }; }
+    { $$ = NamedNumber{ $1, $3, {} }; }
 |   identifier "(" DefinedValue ")"
-    { $$ = NamedNumber{ $1, 0 }; }
+    { $$ = NamedNumber{ $1, 0, $3.reference }; }
 
 SignedNumber:
     number
@@ -1152,12 +1152,15 @@ EnumeratedType:
 Enumerations:
     Enumeration
     { $$ = $1;
+      $$.root_size       = $1.enum_values.size();
       $$.accept_anything = false; }
 |   Enumeration "," ELIPSIS ExceptionSpec
     { $$ = $1;
+      $$.root_size       = $1.enum_values.size();
       $$.accept_anything = true; }
 |   Enumeration "," ELIPSIS ExceptionSpec "," Enumeration
     { $$ = $1;
+      $$.root_size       = $1.enum_values.size();
       $$.accept_anything = true;
       $$.enum_values.insert($$.enum_values.end(), $6.enum_values.begin(), $6.enum_values.end()); }
 |   ELIPSIS ExceptionSpec
@@ -1172,8 +1175,9 @@ EnumerationItem:
     identifier
     { $$.name  = $1; }
 |   NamedNumber
-    { $$.name  = $1.name;
-      $$.value = $1.number; }
+    { $$.name      = $1.name;
+      $$.value     = $1.number;
+      $$.reference = $1.reference; }
 
 EnumeratedValue:
     identifier;
@@ -1617,11 +1621,11 @@ SingleValue:
 |   TimeValue
     { $$.value_selection = $1; }
 |   bstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = BitStringValue{$1}; }
 |   hstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = HexStringValue{$1}; }
 |   cstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = CharStringValue{$1}; }
 |   GENERIC_IDENTIFIER_UPPERCASE
     { $$.value_selection = $1; }
 |   DefinedValue
@@ -1933,7 +1937,7 @@ re2c:define:YYCURSOR = "context_.cursor";
 [0-9]+'\.'[0-9]+        { context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
 [0-9]+                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
 "-"[0-9]+               { context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-['\"']('\\'.|"\"\""|[^'\"'])*['\"']
+["]("\"\""|[^"\000])*["]
                         { context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
 ['\'']('0'|'1')*['\'']"B"
                         { context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index b907650..e583654 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -53,11 +53,13 @@ struct NamedNumber
 {
     std::string name;
     int64_t     number;
+    std::string reference; // Holds the number, unless empty
 };
 struct EnumerationValue
 {
     std::string             name;
     absl::optional<int64_t> value;
+    std::string             reference; // Holds the value, unless empty
 };
 
 struct AnyType
@@ -284,6 +286,7 @@ struct EmbeddedPDVType
 struct EnumeratedType
 {
     std::vector<EnumerationValue> enum_values;
+    std::size_t                   root_size; // The items which follow are extension additions
     bool                          accept_anything;
 };
 struct ExternalType
diff --git a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
index 6ce15ba..5e2cb7d 100644
--- a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
@@ -2,4 +2,13 @@
 
 #include "fast_ber/compiler/CompilerTypes.hpp"
 
-std::string value_as_string(const NamedType& value_type, const Value& value);
+std::string cpp_integer(int64_t integer);
+
+// Whether the reference is the name of an item of an enumeration, or of a number of an integer
+bool is_item_of_type(const Type& type, const std::string& reference);
+
+// The number of each item
+std::vector<int64_t> enumeration_numbers(const EnumeratedType& enumerated, const Module& module, const Asn1Tree& tree);
+
+std::string value_as_string(const NamedType& value_type, const Value& value, const Module& module,
+                            const Asn1Tree& tree);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 7fd55f6..bcd0efe 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -52,7 +52,7 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
             std::string result =
                 constness + value_type(named_type.type, module, tree, named_type.name) + " " + assignment.name + " = ";
 
-            result += value_as_string(named_type, value_assign.value) + ";\n";
+            result += value_as_string(named_type, value_assign.value, module, tree) + ";\n";
             return result;
         }
         else if (absl::holds_alternative<TypeAssignment>(assignment.specific))
@@ -63,7 +63,7 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
         }
         else if (absl::holds_alternative<ObjectClassAssignment>(assignment.specific))
         {
-            throw("Compiler Error: ObjectClassAssignment should be resolved: " + assignment.name);
+            throw std::runtime_error("ObjectClassAssignment should be resolved: " + assignment.name);
         }
         else
         {
@@ -89,7 +89,7 @@ std::string create_imports(const Asn1Tree& tree, const Module& module)
             log_debug(tree, "Value import " + module.module_reference + "." + import_name + " <- " +
                                 import.module_reference + "." + import_name);
 
-            output += "static const auto " + import_name + " = " + import.module_reference + "::" + import_name + ";\n";
+            output += "using ::fast_ber::" + import.module_reference + "::" + import_name + ";\n";
         }
         if (import.imported_values.size() > 0)
         {
-- 
2.43.0


From c5817c472860cce9f7ed30b4d6b312fec8dd8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 34/87] fix: AUTOMATIC TAGS were lost in references, and
 applied beside textual tags

Also refuses tag numbers which are references, and keeps those above 31 bits
---
 src/compiler/ReorderAssignments.cpp           | 125 ++++++++++++++++++
 src/compiler/asn_compiler.yacc                |   7 +-
 .../fast_ber/compiler/CompilerTypes.hpp       |   7 +-
 .../fast_ber/compiler/ReorderAssignments.hpp  |   7 +
 src/compiler_main/CompilerMain.cpp            |   2 +
 5 files changed, 143 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index e0757ec..7b247e2 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -131,6 +131,131 @@ void resolve_components_of(Asn1Tree& tree)
     }
 }
 
+// Calls the functions for each collection, and for each choice, including those which are nested
+template <typename CollectionFunction, typename ChoiceFunction>
+static void visit_constructed_types(Type& type, const CollectionFunction& on_collection,
+                                    const ChoiceFunction& on_choice)
+{
+    auto visit_collection = [&](Collection& collection) {
+        for (ComponentType& component : collection.components)
+        {
+            visit_constructed_types(component.named_type.type, on_collection, on_choice);
+        }
+        on_collection(collection);
+    };
+
+    if (is_sequence(type))
+    {
+        visit_collection(absl::get<SequenceType>(absl::get<BuiltinType>(type)));
+    }
+    else if (is_set(type))
+    {
+        visit_collection(absl::get<SetType>(absl::get<BuiltinType>(type)));
+    }
+    else if (is_choice(type))
+    {
+        ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+        for (NamedType& alternative : choice.choices)
+        {
+            visit_constructed_types(alternative.type, on_collection, on_choice);
+        }
+        on_choice(choice);
+    }
+    else if (is_sequence_of(type))
+    {
+        SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
+        visit_constructed_types(sequence.has_name ? sequence.named_type->type : *sequence.type, on_collection,
+                                on_choice);
+    }
+    else if (is_set_of(type))
+    {
+        SetOfType& set = absl::get<SetOfType>(absl::get<BuiltinType>(type));
+        visit_constructed_types(set.has_name ? set.named_type->type : *set.type, on_collection, on_choice);
+    }
+    else if (is_prefixed(type))
+    {
+        visit_constructed_types(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type, on_collection,
+                                on_choice);
+    }
+}
+
+template <typename CollectionFunction, typename ChoiceFunction>
+static void visit_constructed_types(Module& module, const CollectionFunction& on_collection,
+                                    const ChoiceFunction& on_choice)
+{
+    for (Assignment& assignment : module.assignments)
+    {
+        if (is_type(assignment))
+        {
+            visit_constructed_types(type(assignment), on_collection, on_choice);
+        }
+    }
+}
+
+void select_automatic_tags(Asn1Tree& tree)
+{
+    for (Module& module : tree.modules)
+    {
+        if (module.tagging_default != TaggingMode::automatic)
+        {
+            continue;
+        }
+
+        visit_constructed_types(
+            module,
+            [](Collection& collection) {
+                collection.automatic_tags = std::none_of(
+                    collection.components.begin(), collection.components.end(), [](const ComponentType& component) {
+                        return !component.components_of && is_prefixed(component.named_type.type);
+                    });
+            },
+            [](ChoiceType& choice) {
+                choice.automatic_tags =
+                    std::none_of(choice.choices.begin(), choice.choices.end(),
+                                 [](const NamedType& alternative) { return is_prefixed(alternative.type); });
+            });
+    }
+}
+
+void add_automatic_tags(Asn1Tree& tree)
+{
+    auto add_tag = [](Type& type, int64_t tag_number) {
+        type = BuiltinType(PrefixedType(
+            TaggedType{Tag{Class::context_specific, tag_number}, TaggingMode::implicit, Type(type)}));
+    };
+
+    for (Module& module : tree.modules)
+    {
+        visit_constructed_types(
+            module,
+            [&](Collection& collection) {
+                int64_t tag_number = 0;
+                for (ComponentType& component : collection.components)
+                {
+                    if (collection.automatic_tags)
+                    {
+                        add_tag(component.named_type.type, tag_number++);
+                    }
+                }
+            },
+            [&](ChoiceType& choice) {
+                int64_t tag_number = 0;
+                for (NamedType& alternative : choice.choices)
+                {
+                    if (choice.automatic_tags)
+                    {
+                        add_tag(alternative.type, tag_number++);
+                    }
+                }
+            });
+
+        if (module.tagging_default == TaggingMode::automatic)
+        {
+            module.tagging_default = TaggingMode::implicit;
+        }
+    }
+}
+
 void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
                           std::unordered_set<std::string>& visited_names,
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 0e3697e..9b205db 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -286,7 +286,7 @@
 %type<std::vector<Type>> ActualParameterList;
 %type<Type>              ActualParameter;
 %type<Class>             Class;
-%type<int>               ClassNumber;
+%type<int64_t>           ClassNumber;
 %type<NamedType>         NamedType;
 %type<NamedNumber>       NamedNumber;
 %type<std::vector<NamedNumber>> NamedNumberList;
@@ -1307,7 +1307,7 @@ SetOfType:
 
 ChoiceType:
     CHOICE "{" AlternativeTypeLists "}"
-    { $$ = ChoiceType{ $3, StorageMode::static_ }; }
+    { $$ = ChoiceType{ $3, StorageMode::static_, false }; }
 
 AlternativeTypeLists:
     RootAlternativeTypeList
@@ -1356,7 +1356,8 @@ EncodingReference:
 ClassNumber:
     number
     { $$ = $1; }
-|   DefinedValue;
+|   DefinedValue
+    { throw asn1_parser::syntax_error(context_.location, "Tag numbers which are references are not supported"); }
 
 Class:
     UNIVERSAL
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index e583654..dad0967 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -331,6 +331,7 @@ struct Collection
 {
     ComponentTypeList components;
     bool              allow_extensions = false;
+    bool              automatic_tags   = false; // Components get tags [0], [1], [2]...
 };
 struct SequenceType : Collection
 {
@@ -424,6 +425,7 @@ struct ChoiceType
 {
     std::vector<NamedType> choices;
     StorageMode            storage;
+    bool                   automatic_tags; // Alternatives get tags [0], [1], [2]...
 };
 
 struct DefinedValue
@@ -496,8 +498,8 @@ struct ComponentType
 
 struct Tag
 {
-    Class class_;
-    int   tag_number;
+    Class   class_;
+    int64_t tag_number;
 };
 
 struct TaggedType
@@ -744,6 +746,7 @@ bool is_set_of(const Type& type);
 bool is_sequence_of(const Type& type);
 bool is_enumerated(const Type& type);
 bool is_choice(const Type& type);
+bool is_any(const Type& type);
 bool is_prefixed(const Type& type);
 
 // The type which is tagged, or the type itself if it has no tags
diff --git a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
index e541d20..e989ff0 100644
--- a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
+++ b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
@@ -6,6 +6,13 @@ std::string to_string(const std::vector<Assignment>& assignments);
 void        check_duplicated_names(const std::vector<Assignment>& assignments, const std::string& module_name);
 
 void resolve_components_of(Asn1Tree& tree);
+
+// X.680 Clauses 24.7 and 28.2: Selects the types which are tagged automatically. This depends on the textual tags, as
+// they are before COMPONENTS OF is resolved
+void select_automatic_tags(Asn1Tree& tree);
+// Adds the tags to the selected types. Modules are left with implicit tags
+void add_automatic_tags(Asn1Tree& tree);
+
 void resolve_dependencies(const std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
                           std::unordered_set<std::string>& visited_names,
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index bcd0efe..04d6626 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -270,7 +270,9 @@ int main(int argc, char** argv)
             module.assignments = split_nested_structures(module);
         }
 
+        select_automatic_tags(context.asn1_tree);
         resolve_components_of(context.asn1_tree);
+        add_automatic_tags(context.asn1_tree);
         resolve_object_classes(context.asn1_tree);
 
         for (auto& module : context.asn1_tree.modules)
-- 
2.43.0


From b9484e4e082af6f64f7550742d75939350923670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 35/87] fix: ambiguous SEQUENCEs, repeated components and
 mismatched values were accepted

---
 src/compiler/Identifier.cpp    | 15 +++++--
 src/compiler/TypeAsString.cpp  | 75 ++++++++++++++++++++--------------
 src/compiler/ValueAsString.cpp | 36 +++++++++++++++-
 3 files changed, 90 insertions(+), 36 deletions(-)

diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index b94ec6d..36c9801 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -427,9 +427,18 @@ struct OuterIdentifierHelper
 std::vector<Identifier> outer_identifiers(const DefinedType& defined, const Module& current_module,
                                           const Asn1Tree& tree)
 {
-    const Type&                   resolved_type = type(resolve(tree, current_module.module_reference, defined));
-    const Module&                 mod           = find_module(tree, current_module, defined);
-    const std::vector<Identifier> ids           = outer_identifiers(resolved_type, mod, tree);
+    static int depth = 0;
+    if (depth > 1000)
+    {
+        throw std::runtime_error("Circular definition without a tag: " + defined.type_reference);
+    }
+
+    const Type&   resolved_type = type(resolve(tree, current_module.module_reference, defined));
+    const Module& mod           = find_module(tree, current_module, defined);
+
+    depth++;
+    const std::vector<Identifier> ids = outer_identifiers(resolved_type, mod, tree);
+    depth--;
 
     return ids;
 }
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 43de262..6eb2ba9 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -19,6 +19,19 @@ std::string identifier_template_params(const Type&, const Module&, const Asn1Tre
     return "<" + identifier_override + ">";
 }
 
+template <typename Components, typename NameOf>
+static void check_distinct_names(const Components& components, const std::string& type_name, const NameOf& name_of)
+{
+    absl::flat_hash_set<std::string> names;
+    for (const auto& component : components)
+    {
+        if (!names.insert(name_of(component)).second)
+        {
+            throw std::runtime_error("Component " + name_of(component) + " occurs more than once in " + type_name);
+        }
+    }
+}
+
 template <typename Collection>
 CodeBlock create_collection_definition(const Collection& collection, const Module& module, const Asn1Tree& tree,
                                        const std::string& type_name, const std::string& identifier_override)
@@ -234,36 +247,36 @@ std::string type_as_string(const RelativeOIDType& type, const Module& module, co
 {
     return "::fast_ber::RelativeOID" + identifier_template_params(type, module, tree, identifier_override);
 }
+// X.680 Clause 24.5: An optional component, and the component which follows, need distinct tags
 void check_valid(const SequenceType& sequence, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
-
-    if (module.tagging_default != TaggingMode::automatic)
+    std::vector<std::pair<Identifier, std::string>> previous_optionals;
+    for (const ComponentType& component : sequence.components)
     {
-        std::vector<Identifier>     previous_optional_ids;
-        absl::optional<std::string> previous_optional_type;
-        for (const ComponentType& component : sequence.components)
+        // An ANY may have any tag, it is up to the user to avoid ambiguity
+        const std::vector<Identifier>& ids = is_any(component.named_type.type)
+                                                 ? std::vector<Identifier>()
+                                                 : outer_identifiers(component.named_type.type, module, tree);
+        for (const Identifier& id : ids)
         {
-            if (component.is_optional || component.default_value)
+            for (const auto& previous : previous_optionals)
             {
-                auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
-
-                for (const Identifier& previous_optional_id : previous_optional_ids)
+                if (previous.first == id)
                 {
-                    if (previous_optional_type && previous_optional_id == outer_ids.front())
-                    {
-                        throw std::runtime_error("SEQUENCE " + type_name +
-                                                 " is ambiguous, two optional values in a row with same ID [" +
-                                                 component.named_type.name + "] [" + *previous_optional_type + "] [" +
-                                                 outer_ids.front().name() + "]");
-                    }
+                    throw std::runtime_error("SEQUENCE " + type_name +
+                                             " is ambiguous, component follows optional value with same ID [" +
+                                             component.named_type.name + "] [" + previous.second + "] [" + id.name() +
+                                             "]");
                 }
-                previous_optional_ids  = std::move(outer_ids);
-                previous_optional_type = component.named_type.name;
             }
-            else
+        }
+
+        previous_optionals.clear();
+        if (component.is_optional || component.default_value)
+        {
+            for (const Identifier& id : ids)
             {
-                previous_optional_type = absl::nullopt;
-                previous_optional_ids.clear();
+                previous_optionals.emplace_back(id, component.named_type.name);
             }
         }
     }
@@ -293,19 +306,14 @@ std::string type_as_string(const SequenceOfType& sequence, const Module&, const
 }
 void check_valid(const SetType& set, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
-    if (module.tagging_default != TaggingMode::automatic)
+    absl::flat_hash_set<Identifier> ids;
+    for (const ComponentType& component : set.components)
     {
-        absl::flat_hash_set<Identifier> ids;
-        for (const ComponentType& component : set.components)
+        for (const Identifier& id : outer_identifiers(component.named_type.type, module, tree))
         {
-            auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
-            for (const Identifier& id : outer_ids)
+            if (!ids.insert(id).second)
             {
-                if (ids.count(id) > 0)
-                {
-                    throw std::runtime_error("Identifier " + id.name() + " occurs more than once in SET " + type_name);
-                }
-                ids.insert(id);
+                throw std::runtime_error("Identifier " + id.name() + " occurs more than once in SET " + type_name);
             }
         }
     }
@@ -462,17 +470,22 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     {
         const SetType& set = absl::get<SetType>(absl::get<BuiltinType>(assignment_type));
         check_valid(set, module, tree, name);
+        check_distinct_names(set.components, name,
+                             [](const ComponentType& component) { return component.named_type.name; });
         return create_collection_definition(set, module, tree, name, identifier_override);
     }
     else if (is_sequence(assignment_type))
     {
         const SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(assignment_type));
         check_valid(sequence, module, tree, name);
+        check_distinct_names(sequence.components, name,
+                             [](const ComponentType& component) { return component.named_type.name; });
         return create_collection_definition(sequence, module, tree, name, identifier_override);
     }
     else if (is_choice(assignment_type))
     {
         const ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(assignment_type));
+        check_distinct_names(choice.choices, name, [](const NamedType& alternative) { return alternative.name; });
         return create_choice_definition(choice, module, tree, name, identifier_override);
     }
 
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 6ba9281..569fb16 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -310,6 +310,38 @@ bool is_item_of_type(const Type& type, const std::string& reference)
     return false;
 }
 
+// References are not followed
+static bool is_value_of_type(const Type& type, const Value& value)
+{
+    if (!absl::holds_alternative<BuiltinType>(type) || is_enumerated(type))
+    {
+        return false;
+    }
+
+    const auto& selection = value.value_selection;
+    const bool  is_string = absl::holds_alternative<BitStringValue>(selection) ||
+                           absl::holds_alternative<HexStringValue>(selection) ||
+                           absl::holds_alternative<CharStringValue>(selection);
+    if (is_integer(type))
+    {
+        return absl::holds_alternative<int64_t>(selection);
+    }
+    if (is_boolean(type))
+    {
+        return absl::holds_alternative<BooleanValue>(selection);
+    }
+    if (absl::holds_alternative<RealType>(absl::get<BuiltinType>(type)))
+    {
+        return absl::holds_alternative<double>(selection) || absl::holds_alternative<int64_t>(selection);
+    }
+    if (is_octet_string(type) || is_bit_string(type) ||
+        absl::holds_alternative<CharacterStringType>(absl::get<BuiltinType>(type)))
+    {
+        return is_string;
+    }
+    return true;
+}
+
 std::string value_as_string(const NamedType& value_type, const Value& value, const Module& module, const Asn1Tree& tree)
 {
     assert(!is_defined(value_type.type)); // value_type should be concrete
@@ -355,9 +387,9 @@ std::string value_as_string(const NamedType& value_type, const Value& value, con
         }
         return "::fast_ber::" + value_module->module_reference + "::" + reference;
     }
-    else if (is_enumerated(value_type.type))
+    else if (!is_value_of_type(value_type.type, value))
     {
-        throw std::runtime_error("Unexpected Enumerated type");
+        throw std::runtime_error("Value [" + value_type.name + "] does not match its type");
     }
     else if (absl::holds_alternative<BitStringValue>(value.value_selection))
     {
-- 
2.43.0


From ba87d4c1a8bfb6c6d4e42935ca8078b6b7ef37c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 36/87] fix: components named like a library type hid it in the
 generated code

---
 src/compiler/CompilerTypes.cpp | 24 ++++++++++++++++++++++--
 src/compiler/CppGeneration.cpp | 12 ++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 6275851..2bbb525 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -118,18 +118,30 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "wchar_t",
     "while",
     "xor",
-    "xor_eq"
+    "xor_eq",
     /* fast_ber*/
+    "AcceptedIndex",
+    "AcceptedType",
+    "AsnId",
     "BMPString",
+    "BerView",
     "BitString",
     "Boolean",
     "CharacterString",
     "Choice",
+    "Choices",
+    "Class",
+    "Construction",
     "Date",
     "DateTime",
+    "DecodeResult",
+    "Default",
+    "DoubleId",
     "Duration",
     "EmbeddedPDV",
+    "EncodeResult",
     "Enumerated",
+    "ExplicitId",
     "External",
     "GeneralString",
     "GeneralizedTime",
@@ -141,6 +153,7 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "Identifier",
     "InstanceOf",
     "Integer",
+    "IsChoiceId",
     "Null",
     "NumericString",
     "ObjectIdentifier",
@@ -155,18 +168,25 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "SequenceOf",
     "Set",
     "SetOf",
+    "Storage",
+    "StorageMode",
     "TaggedType",
     "TeletexString",
     "Time",
     "TimeOfDay",
+    "ToType",
+    "ToTypeImpl",
     "UTCTime",
     "UTF8String",
+    "UniversalTag",
     "UniversalString",
     "VideotexString",
     "VisibleString",
     "decode",
     "encode",
-    "encoded_length"};
+    "encoded_length",
+    "size_t",
+    "uint8_t"};
 
 // Switch asn '-' for C++ '_'
 // Rename any names which are reserved in C++
diff --git a/src/compiler/CppGeneration.cpp b/src/compiler/CppGeneration.cpp
index f309d59..86fd3a7 100644
--- a/src/compiler/CppGeneration.cpp
+++ b/src/compiler/CppGeneration.cpp
@@ -2,6 +2,7 @@
 
 #include <cctype>
 #include <sstream>
+#include <unordered_set>
 
 std::string create_include(const std::string& path) { return "#include \"" + path + "\"\n"; }
 
@@ -62,11 +63,22 @@ std::string add_namespace(const std::string& name, const std::string& enclosed)
     return output;
 }
 
+// Names which generated classes refer to without qualification, or define
+static const std::unordered_set<std::string> generated_names = {
+    "AcceptedIndex", "AcceptedType", "AsnId",        "BerView",     "Choices",     "Class",  "DecodeResult",
+    "Default",       "DoubleId",     "EncodeResult", "ExactlyOnce", "ExplicitId",  "Id",     "IsChoiceId",
+    "Optional",      "SequenceOf",   "SetOf",        "Storage",     "StorageMode", "ToType", "ToTypeImpl",
+    "UniversalTag"};
+
 // Creates a C++ type following conventions of project (ie starts with capital letter)
 std::string make_type_name(std::string name, absl::string_view parent_name)
 {
     assert(!name.empty());
     name[0] = std::toupper(name[0]);
+    if (generated_names.count(name) > 0) // Would be hidden from the code generated within the enclosing class
+    {
+        name += '_';
+    }
 
     const std::size_t scope = parent_name.rfind("::");
     if (scope != absl::string_view::npos)
-- 
2.43.0


From 105214a77719879e7d03d35059c6166e2dc958c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 37/87] fix: a recursive CHOICE used from another module did
 not compile

---
 include/fast_ber/util/DynamicVariantHelpers.hpp | 13 +++++++------
 src/compiler/GenerateChoice.cpp                 |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariantHelpers.hpp b/include/fast_ber/util/DynamicVariantHelpers.hpp
index f1f49dd..5ee1863 100644
--- a/include/fast_ber/util/DynamicVariantHelpers.hpp
+++ b/include/fast_ber/util/DynamicVariantHelpers.hpp
@@ -41,14 +41,15 @@ struct ImaginaryFun<DynamicVariant<H, T...>, i> : ImaginaryFun<DynamicVariant<T.
 template <typename T, typename Variant>
 using FunType = decltype(ImaginaryFun<Variant>::Run(std::declval<T>(), {}));
 
-template <typename T, typename Variant, typename = void>
-struct AcceptedIndex : std::integral_constant<size_t, variant_npos>
-{
-};
+// Overload resolution is performed only once, as the result may differ while a self referential type is incomplete
+template <typename T, typename Variant>
+auto accepted_index(int) -> decltype(ImaginaryFun<Variant>::Run(std::declval<T>(), {}));
+
+template <typename T, typename Variant>
+std::integral_constant<std::size_t, variant_npos> accepted_index(...);
 
 template <typename T, typename Variant>
-struct AcceptedIndex<T, Variant, absl::void_t<decltype(ImaginaryFun<Variant>::Run(std::declval<T>(), {}))>>
-    : decltype(ImaginaryFun<Variant>::Run(std::declval<T>(), {}))
+struct AcceptedIndex : decltype(accepted_index<T, Variant>(0))
 {
 };
 
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index 4ce0811..7c90e0c 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -77,7 +77,7 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
         block.add_line();
 
         block.add_line("template <typename T_,");
-        block.add_line("    typename = absl::enable_if_t<!std::is_same<absl::decay_t<T_>, " + name + ">::value>,");
+        block.add_line("    typename = absl::enable_if_t<!std::is_base_of<" + name + ", absl::decay_t<T_>>::value>,");
         block.add_line("    typename = absl::enable_if_t<ExactlyOnce<AcceptedType<T_&&>>::value && "
                        "std::is_constructible<AcceptedType<T_&&>, T_&&>::value>>");
         block.add_line(name + "(T_&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T_&&>, T_&&>::value) : "
-- 
2.43.0


From 638b49c9fd25ef9ac0d33414a0714dff7126a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 38/87] fix: references to types with two textual tags lost the
 tags

---
 src/compiler/ResolveType.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index 106c2e1..f796fb2 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -180,13 +180,14 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
         }
         else if (is_prefixed(type(assignment)))
         {
-            PrefixedType prefixed = absl::get<PrefixedType>(absl::get<BuiltinType>(type(assignment)));
-            if (is_defined(prefixed.tagged_type->type))
+            Type  tagged     = type(assignment);
+            Type& inner_type = without_tags(tagged);
+            if (is_defined(inner_type))
             {
-                NamedTypeAndModule const& inner = resolve_type_and_module(
-                    tree, working_module.module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
-                prefixed.tagged_type->type = inner.type.type;
-                return {NamedType{inner.type.name, prefixed}, inner.module};
+                NamedTypeAndModule const& inner = resolve_type_and_module(tree, working_module.module_reference,
+                                                                          absl::get<DefinedType>(inner_type));
+                inner_type = inner.type.type;
+                return {NamedType{inner.type.name, tagged}, inner.module};
             }
             else
             {
-- 
2.43.0


From 3cb1c3dbfaadbab6a0dae132bc18e39f4be8bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 39/87] fix: references to ENUMERATEDs of other modules did not
 compile

---
 src/compiler/TypeAsString.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 6eb2ba9..71dc224 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -508,11 +508,13 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
             id = identifier(assignment_type, module, tree).name();
         }
 
-        if (is_defined(assignment_type))
+        if (introduce_type && is_defined(assignment_type)) // Members would introduce the same name repeatedly
         {
             DefinedType const&        defined_type = absl::get<DefinedType>(assignment_type);
             NamedTypeAndModule const& resolved = resolve_type_and_module(tree, module.module_reference, defined_type);
-            if (is_enumerated(resolved.type.type) && resolved.module.module_reference != module.module_reference)
+            if (is_enumerated(resolved.type.type) && resolved.module.module_reference != module.module_reference &&
+                resolved.type.name == defined_type.type_reference &&
+                (name == defined_type.type_reference || !exists(tree, module, defined_type.type_reference)))
             {
                 block.add_line("using " + defined_type.type_reference + "Values = ::fast_ber::" +
                                resolved.module.module_reference + "::" + defined_type.type_reference + "Values;");
-- 
2.43.0


From 2317e3050cbe86f9a4210c958362d18305c12068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 40/87] fix: comparing received messages terminated when they
 held text which is not a time

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index fcf5221..640009d 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -63,7 +63,19 @@ class GeneralizedTime
 template <typename Identifier>
 bool operator==(const GeneralizedTime<Identifier>& lhs, const GeneralizedTime<Identifier>& rhs)
 {
-    return lhs.time() == rhs.time();
+    if (lhs.string() == rhs.string())
+    {
+        return true;
+    }
+
+    try
+    {
+        return lhs.time() == rhs.time();
+    }
+    catch (const std::runtime_error&)
+    {
+        return false; // received text which is not a time
+    }
 }
 
 template <typename Identifier>
-- 
2.43.0


From e31944ee7e51890200fcf9e0670aac573544c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 41/87] fix: COMPONENTS OF was dropped in SETs, nested types
 and through references

---
 src/compiler/ReorderAssignments.cpp | 164 +++++++++++-----------------
 1 file changed, 66 insertions(+), 98 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 7b247e2..9e3bea3 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -40,97 +40,6 @@ void check_duplicated_names(const std::vector<Assignment>& assignments, const st
     }
 }
 
-void resolve_components_of(Asn1Tree& tree)
-{
-    for (Module& module : tree.modules)
-    {
-        for (Assignment& assignemnt : module.assignments)
-        {
-            if (absl::holds_alternative<TypeAssignment>(assignemnt.specific))
-            {
-                Type& assigned_type = without_tags(absl::get<TypeAssignment>(assignemnt.specific).type);
-                if (is_sequence(assigned_type))
-                {
-                    SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(assigned_type));
-                    for (auto iter = sequence.components.begin(); iter != sequence.components.end(); iter++)
-                    {
-                        if (iter->components_of)
-                        {
-                            if (is_defined(*iter->components_of))
-                            {
-                                const DefinedType& defined = absl::get<DefinedType>(*iter->components_of);
-                                const Type&        inheretied =
-                                    without_tags(type(resolve(tree, module.module_reference, defined)));
-                                if (is_sequence(inheretied))
-                                {
-                                    const SequenceType& inheretied_sequence =
-                                        absl::get<SequenceType>(absl::get<BuiltinType>(inheretied));
-
-                                    const size_t offset = std::distance(sequence.components.begin(), iter);
-                                    sequence.components.insert(iter, inheretied_sequence.components.begin(),
-                                                               inheretied_sequence.components.end());
-
-                                    iter = sequence.components.begin();
-                                    std::advance(iter, offset);
-                                    std::advance(iter, inheretied_sequence.components.size());
-                                }
-                                else if (is_set(inheretied))
-                                {
-                                    const SetType& inheretied_set =
-                                        absl::get<SetType>(absl::get<BuiltinType>(inheretied));
-
-                                    const size_t offset = std::distance(sequence.components.begin(), iter);
-                                    sequence.components.insert(iter, inheretied_set.components.begin(),
-                                                               inheretied_set.components.end());
-
-                                    iter = sequence.components.begin();
-                                    std::advance(iter, offset);
-                                    std::advance(iter, inheretied_set.components.size());
-                                }
-                            }
-                            else if (is_sequence(*iter->components_of))
-                            {
-                                const SequenceType& inheretied_sequence =
-                                    absl::get<SequenceType>(absl::get<BuiltinType>(*iter->components_of));
-
-                                const size_t offset = std::distance(sequence.components.begin(), iter);
-                                sequence.components.insert(iter, inheretied_sequence.components.begin(),
-                                                           inheretied_sequence.components.end());
-
-                                iter = sequence.components.begin();
-                                std::advance(iter, offset);
-                                std::advance(iter, inheretied_sequence.components.size());
-                            }
-                            else if (is_set(*iter->components_of))
-                            {
-                                const SetType& inheretied_set =
-                                    absl::get<SetType>(absl::get<BuiltinType>(*iter->components_of));
-
-                                const size_t offset = std::distance(sequence.components.begin(), iter);
-                                sequence.components.insert(iter, inheretied_set.components.begin(),
-                                                           inheretied_set.components.end());
-
-                                iter = sequence.components.begin();
-                                std::advance(iter, offset);
-                                std::advance(iter, inheretied_set.components.size());
-                            }
-                            else
-                            {
-                                throw std::runtime_error("Strange type when resolving SEQUENCE OF in type" +
-                                                         assignemnt.name);
-                            }
-                        }
-                    }
-                    sequence.components.erase(
-                        std::remove_if(sequence.components.begin(), sequence.components.end(),
-                                       [](ComponentType& component) { return component.components_of; }),
-                        sequence.components.end());
-                }
-            }
-        }
-    }
-}
-
 // Calls the functions for each collection, and for each choice, including those which are nested
 template <typename CollectionFunction, typename ChoiceFunction>
 static void visit_constructed_types(Type& type, const CollectionFunction& on_collection,
@@ -192,6 +101,66 @@ static void visit_constructed_types(Module& module, const CollectionFunction& on
     }
 }
 
+// The components of a SEQUENCE or SET which is inlined with COMPONENTS OF
+static const Collection& referenced_collection(const Asn1Tree& tree, const Module& module, const Type& type,
+                                               int depth = 0)
+{
+    const Type& untagged = without_tags(type);
+    if (is_sequence(untagged))
+    {
+        return absl::get<SequenceType>(absl::get<BuiltinType>(untagged));
+    }
+    else if (is_set(untagged))
+    {
+        return absl::get<SetType>(absl::get<BuiltinType>(untagged));
+    }
+    else if (is_defined(untagged) && depth < 100)
+    {
+        const DefinedType& defined = absl::get<DefinedType>(untagged);
+        const Module&      owner   = find_module(tree, module, defined);
+        const Assignment&  inlined = resolve(tree, owner, defined.type_reference);
+        if (is_type(inlined))
+        {
+            return referenced_collection(tree, owner, ::type(inlined), depth + 1);
+        }
+    }
+    throw std::runtime_error("COMPONENTS OF a type which is not a SEQUENCE or SET in module " +
+                             module.module_reference);
+}
+
+static void resolve_components_of(const Asn1Tree& tree, const Module& module, Collection& collection, int depth)
+{
+    if (depth > 100)
+    {
+        throw std::runtime_error("Circular COMPONENTS OF in module " + module.module_reference);
+    }
+
+    ComponentTypeList components;
+    for (const ComponentType& component : collection.components)
+    {
+        if (!component.components_of)
+        {
+            components.push_back(component);
+            continue;
+        }
+
+        Collection inherited = referenced_collection(tree, module, *component.components_of);
+        resolve_components_of(tree, module, inherited, depth + 1);
+        components.insert(components.end(), inherited.components.begin(), inherited.components.end());
+    }
+    collection.components = components;
+}
+
+void resolve_components_of(Asn1Tree& tree)
+{
+    for (Module& module : tree.modules)
+    {
+        visit_constructed_types(
+            module, [&](Collection& collection) { resolve_components_of(tree, module, collection, 0); },
+            [](ChoiceType&) {});
+    }
+}
+
 void select_automatic_tags(Asn1Tree& tree)
 {
     for (Module& module : tree.modules)
@@ -220,8 +189,8 @@ void select_automatic_tags(Asn1Tree& tree)
 void add_automatic_tags(Asn1Tree& tree)
 {
     auto add_tag = [](Type& type, int64_t tag_number) {
-        type = BuiltinType(PrefixedType(
-            TaggedType{Tag{Class::context_specific, tag_number}, TaggingMode::implicit, Type(type)}));
+        type = BuiltinType(
+            PrefixedType(TaggedType{Tag{Class::context_specific, tag_number}, TaggingMode::implicit, Type(type)}));
     };
 
     for (Module& module : tree.modules)
@@ -329,8 +298,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                            [&](const Dependency& depend) { return depend.name == name; });
     };
 
-    if (is_type(assignment) &&
-        (is_choice(assigned_type) || is_set_of(assigned_type) || is_sequence_of(assigned_type)))
+    if (is_type(assignment) && (is_choice(assigned_type) || is_set_of(assigned_type) || is_sequence_of(assigned_type)))
     {
         // If circular dependancy, use dynamic storage. Else, resolve and use static storage
         if (is_circular({Dependency{name, module.module_reference}}))
@@ -439,8 +407,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             }
         }
     }
-    else if (is_value(assignment) &&
-             absl::holds_alternative<DefinedValue>(value(assignment).value.value_selection) &&
+    else if (is_value(assignment) && absl::holds_alternative<DefinedValue>(value(assignment).value.value_selection) &&
              is_item_of_type(concrete_type(NamedType{name, value(assignment).type}, module, tree).type,
                              absl::get<DefinedValue>(value(assignment).value.value_selection).reference))
     {
@@ -681,7 +648,8 @@ std::vector<Assignment> split_nested_structures(const Module& module)
         if (absl::holds_alternative<TypeAssignment>(assignment.specific))
         {
             std::vector<NamedType> nested_structs;
-            find_nested_structs(module, without_tags(absl::get<TypeAssignment>(assignment.specific).type), nested_structs);
+            find_nested_structs(module, without_tags(absl::get<TypeAssignment>(assignment.specific).type),
+                                nested_structs);
 
             for (auto nested_iter = nested_structs.rbegin(); nested_iter != nested_structs.rend(); nested_iter++)
             {
-- 
2.43.0


From 882f18b3ee4d1691cf85732ba55e8a9d6f94d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 42/87] fix: extension alternatives of a CHOICE were put before
 the others

---
 src/compiler/asn_compiler.yacc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 9b205db..f2cdee6 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1319,7 +1319,7 @@ RootAlternativeTypeList:
 |   AlternativeTypeList "," ELIPSIS
     { $$ = $1; }
 |   AlternativeTypeList "," ELIPSIS "," AlternativeTypeList
-    { $$ = $1; $$.insert($$.begin(), $5.begin(), $5.end()); }
+    { $$ = $1; $$.insert($$.end(), $5.begin(), $5.end()); }
 
 AlternativeTypeList:
     NamedType
-- 
2.43.0


From f69d71e229a85e93778e59ec5145d2b27d13cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 43/87] fix: extension additions took the automatic tags of the
 components after them

---
 src/compiler/CompilerTypes.cpp                 |  9 +++++++++
 src/compiler/ReorderAssignments.cpp            | 18 ++++++++++++++----
 src/compiler/asn_compiler.yacc                 | 10 +++++-----
 .../fast_ber/compiler/CompilerTypes.hpp        |  2 ++
 4 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 2bbb525..2d17dfd 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -350,6 +350,15 @@ bool is_generated(const Type& type)
     return false;
 }
 
+void add_extensions(ComponentTypeList& components, const ComponentTypeList& extensions)
+{
+    for (const ComponentType& extension : extensions)
+    {
+        components.push_back(extension);
+        components.back().is_extension = true;
+    }
+}
+
 std::string gen_anon_member_name()
 {
     static std::size_t count = 0;
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 9e3bea3..27ba4c6 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -146,7 +146,14 @@ static void resolve_components_of(const Asn1Tree& tree, const Module& module, Co
 
         Collection inherited = referenced_collection(tree, module, *component.components_of);
         resolve_components_of(tree, module, inherited, depth + 1);
-        components.insert(components.end(), inherited.components.begin(), inherited.components.end());
+        for (ComponentType& inlined : inherited.components)
+        {
+            if (!inlined.is_extension)
+            {
+                inlined.is_extension = component.is_extension;
+                components.push_back(inlined);
+            }
+        }
     }
     collection.components = components;
 }
@@ -199,11 +206,14 @@ void add_automatic_tags(Asn1Tree& tree)
             module,
             [&](Collection& collection) {
                 int64_t tag_number = 0;
-                for (ComponentType& component : collection.components)
+                for (bool extensions : {false, true})
                 {
-                    if (collection.automatic_tags)
+                    for (ComponentType& component : collection.components)
                     {
-                        add_tag(component.named_type.type, tag_number++);
+                        if (collection.automatic_tags && component.is_extension == extensions)
+                        {
+                            add_tag(component.named_type.type, tag_number++);
+                        }
                     }
                 }
             },
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index f2cdee6..04b9ae2 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1230,22 +1230,22 @@ ComponentTypeLists:
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS "," ComponentTypeList
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.components.insert($$.components.end(), $10.begin(), $10.end());
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec "," ComponentTypeList
-    { $$.components = $4;
+    { add_extensions($$.components, $4);
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS
-    { $$.components = $4;
+    { add_extensions($$.components, $4);
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec
     { $$.components = {};
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index dad0967..2158675 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -494,6 +494,7 @@ struct ComponentType
     absl::optional<Value> default_value;
     absl::optional<Type>  components_of;
     StorageMode           optional_storage;
+    bool                  is_extension;
 };
 
 struct Tag
@@ -762,4 +763,5 @@ bool is_generated(const Type& type);
 
 struct Context;
 
+void        add_extensions(ComponentTypeList& components, const ComponentTypeList& extensions);
 std::string gen_anon_member_name();
-- 
2.43.0


From fd36f33988df963dda847b9d2aefb3545b5ec1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 44/87] fix: the arguments of parameterized types were swapped

---
 src/compiler/asn_compiler.yacc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 04b9ae2..9228de8 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -926,7 +926,7 @@ ActualParameterList:
     ActualParameter 
     { $$.push_back($1); }
 |   ActualParameter "," ActualParameterList
-    { $$ = $3; $$.push_back($1); }
+    { $$ = $3; $$.insert($$.begin(), $1); }
 
 ActualParameter:
     Type
-- 
2.43.0


From 9c5004c4da803de7ce9df277d1862aca528410f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 45/87] fix: recursive types through anonymous or later defined
 SEQUENCE OFs and CHOICEs did not compile

---
 src/compiler/ReorderAssignments.cpp | 93 ++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 27ba4c6..a6345c8 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -235,6 +235,35 @@ void add_automatic_tags(Asn1Tree& tree)
     }
 }
 
+// Allows the type to contain types which are not yet defined
+static void set_dynamic_storage(Type& type)
+{
+    if (is_choice(type))
+    {
+        ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+        choice.storage     = StorageMode::dynamic;
+
+        // Also mark self referential children as dynamic (Sizeof choice cannot yet be determined)
+        // TODO: should only be dynamic if refer to choice
+        for (NamedType& child : choice.choices)
+        {
+            Type& child_type = without_tags(child.type);
+            if (is_set_of(child_type) || is_sequence_of(child_type))
+            {
+                set_dynamic_storage(child_type);
+            }
+        }
+    }
+    else if (is_set_of(type))
+    {
+        absl::get<SetOfType>(absl::get<BuiltinType>(type)).storage = StorageMode::dynamic;
+    }
+    else if (is_sequence_of(type))
+    {
+        absl::get<SequenceOfType>(absl::get<BuiltinType>(type)).storage = StorageMode::dynamic;
+    }
+}
+
 void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
                           std::unordered_set<std::string>& visited_names,
@@ -308,6 +337,17 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                            [&](const Dependency& depend) { return depend.name == name; });
     };
 
+    // These are given dynamic storage themselves when they are circular, so can be defined before this assignment
+    auto has_dynamic_definition = [&](const Type& type) -> bool {
+        if (!is_defined(without_tags(type)))
+        {
+            return false;
+        }
+        const Type& defined =
+            without_tags(resolve_type(tree, module.module_reference, absl::get<DefinedType>(without_tags(type))).type);
+        return is_choice(defined) || is_set_of(defined) || is_sequence_of(defined);
+    };
+
     if (is_type(assignment) && (is_choice(assigned_type) || is_set_of(assigned_type) || is_sequence_of(assigned_type)))
     {
         // If circular dependancy, use dynamic storage. Else, resolve and use static storage
@@ -316,38 +356,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             // As type is now dynamic it doesn't have any dependencies
             assignment_infos[name].depends_on = {};
 
-            if (is_choice(assigned_type))
-            {
-                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(assigned_type));
-                choice.storage     = StorageMode::dynamic;
-
-                // Also mark self referential children as dynamic (Sizeof choice cannot yet be determined)
-                // TODO: should only be dynamic if refer to choice
-                for (NamedType& child : choice.choices)
-                {
-                    Type& child_type =
-                        is_prefixed(child.type)
-                            ? absl::get<PrefixedType>(absl::get<BuiltinType>(child.type)).tagged_type->type
-                            : child.type;
-
-                    if (is_set_of(child_type))
-                    {
-                        absl::get<SetOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
-                    }
-                    if (is_sequence_of(child_type))
-                    {
-                        absl::get<SequenceOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
-                    }
-                }
-            }
-            else if (is_set_of(assigned_type))
-            {
-                absl::get<SetOfType>(absl::get<BuiltinType>(assigned_type)).storage = StorageMode::dynamic;
-            }
-            else if (is_sequence_of(assigned_type))
-            {
-                absl::get<SequenceOfType>(absl::get<BuiltinType>(assigned_type)).storage = StorageMode::dynamic;
-            }
+            set_dynamic_storage(assigned_type);
             std::cout << "Type " << name << " has circular dependencies, setting dynamic storage policy" << std::endl;
         }
         else
@@ -372,8 +381,16 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                     resolve_all({Dependency{defined.reference, absl::nullopt, false}});
                 }
             }
+            else if ((is_choice(without_tags(component.named_type.type)) ||
+                      is_set_of(without_tags(component.named_type.type)) ||
+                      is_sequence_of(without_tags(component.named_type.type))) &&
+                     is_circular(depends_on(component.named_type.type)))
+            {
+                set_dynamic_storage(without_tags(component.named_type.type));
+            }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
+            else if (component.is_optional && !has_dynamic_definition(component.named_type.type) &&
+                     is_circular(depends_on(component.named_type.type)))
             {
                 std::cout << "Optional member[" << component.named_type.name << "] of [" << name
                           << "] has circular dependencies, setting dynamic storage policy" << std::endl;
@@ -403,8 +420,16 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                     resolve_all({Dependency{defined.reference, absl::nullopt, false}});
                 }
             }
+            else if ((is_choice(without_tags(component.named_type.type)) ||
+                      is_set_of(without_tags(component.named_type.type)) ||
+                      is_sequence_of(without_tags(component.named_type.type))) &&
+                     is_circular(depends_on(component.named_type.type)))
+            {
+                set_dynamic_storage(without_tags(component.named_type.type));
+            }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
+            else if (component.is_optional && !has_dynamic_definition(component.named_type.type) &&
+                     is_circular(depends_on(component.named_type.type)))
             {
                 std::cout << "Optional member[" << component.named_type.name << "] of [" << name
                           << "] has circular dependencies, setting dynamic storage policy" << std::endl;
-- 
2.43.0


From 80f23865a385e88e090788f2c8e6604cbd1e2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 46/87] fix: importing from an undefined module dereferenced
 the end of a map

---
 src/compiler/ReorderAssignments.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index a6345c8..9fb3331 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -701,13 +701,12 @@ void resolve_module_dependencies(const std::unordered_map<std::string, Module>&
                                  std::unordered_set<std::string>& assigned_names,
                                  std::unordered_set<std::string>& visited_names, std::vector<Module>& ordered_modules)
 {
-    const auto&   module_iter = module_map.find(name);
-    const Module& module      = module_iter->second;
-
+    const auto& module_iter = module_map.find(name);
     if (module_iter == module_map.end())
     {
         throw std::runtime_error("Reference to undefined module: " + name);
     }
+    const Module& module = module_iter->second;
 
     if (assigned_names.count(name) == 1)
     {
-- 
2.43.0


From c83f379126d74c25e3eb7da1557b7c2f8510dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 47/87] fix: modules referenced without an import were emitted
 after their uses

---
 src/compiler/ReorderAssignments.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 9fb3331..298d0da 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -730,6 +730,19 @@ void resolve_module_dependencies(const std::unordered_map<std::string, Module>&
                                     ordered_modules);
     }
 
+    // References such as Module.Type do not need an import
+    for (const Assignment& assignment : module.assignments)
+    {
+        for (const Dependency& dependency : dependencies(assignment))
+        {
+            if (dependency.module_reference && *dependency.module_reference != name)
+            {
+                resolve_module_dependencies(module_map, *dependency.module_reference, assigned_names, visited_names,
+                                            ordered_modules);
+            }
+        }
+    }
+
     ordered_modules.push_back(module);
     assigned_names.insert(name);
 }
-- 
2.43.0


From 25d9b44a115f99f985fd366a2add0a99a830e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 48/87] fix: a NULL given to a parameterized type was taken for
 an ANY

---
 src/compiler/asn_compiler.yacc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 9228de8..314a1f9 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -932,7 +932,16 @@ ActualParameter:
     Type
     { $$ = $1; }
 |   ValueWithoutTypeIdentifier
-    { std::cerr << "Warning: Not yet dealing with value paramaters\n"; }
+    {
+        if (absl::holds_alternative<NullValue>($1.value_selection)) // NULL is a type as well as a value
+        {
+            $$ = BuiltinType(NullType{});
+        }
+        else
+        {
+            std::cerr << "Warning: Not yet dealing with value paramaters\n";
+        }
+    }
 //|   ValueSet
 |   DefinedObjectClass
 //|   Object
-- 
2.43.0


From 490a11996f5e9306b62fd61c73f0653c9c1b4532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 49/87] fix: tags of dummy references are explicit

---
 src/compiler/Parameters.cpp                       | 15 +++++++++++++++
 src/compiler/ReorderAssignments.cpp               | 11 ++++++-----
 .../include/fast_ber/compiler/CompilerTypes.hpp   |  1 +
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/compiler/Parameters.cpp b/src/compiler/Parameters.cpp
index 1bc66b8..7d5fb94 100644
--- a/src/compiler/Parameters.cpp
+++ b/src/compiler/Parameters.cpp
@@ -1,11 +1,18 @@
 #include "fast_ber/compiler/Parameters.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 
+static bool is_dummy_reference(const Type& type, const ParameterTypes& parameters)
+{
+    return is_defined(type) && !absl::get<DefinedType>(type).module_reference &&
+           parameters.count(absl::get<DefinedType>(type).type_reference) > 0;
+}
+
 void resolve_parameterized(const Asn1Tree& tree, const Module& module, ChoiceType& choice,
                            const ParameterTypes& parameters)
 {
     for (NamedType& named_type : choice.choices)
     {
+        named_type.is_dummy_reference = is_dummy_reference(named_type.type, parameters);
         resolve_parameterized(tree, module, named_type.type, parameters);
     }
 }
@@ -14,6 +21,7 @@ void resolve_parameterized(const Asn1Tree& tree, const Module& module, SequenceT
 {
     for (ComponentType& component : sequence.components)
     {
+        component.named_type.is_dummy_reference = is_dummy_reference(component.named_type.type, parameters);
         resolve_parameterized(tree, module, component.named_type.type, parameters);
     }
 }
@@ -27,6 +35,7 @@ void resolve_parameterized(const Asn1Tree& tree, const Module& module, SetType&
 {
     for (ComponentType& component : set.components)
     {
+        component.named_type.is_dummy_reference = is_dummy_reference(component.named_type.type, parameters);
         resolve_parameterized(tree, module, component.named_type.type, parameters);
     }
 }
@@ -38,6 +47,12 @@ void resolve_parameterized(const Asn1Tree& tree, const Module& module, SetOfType
 void resolve_parameterized(const Asn1Tree& tree, const Module& module, PrefixedType& prefixed_type,
                            const ParameterTypes& parameters)
 {
+    // X.680 Clause 31.2.7: The tag of a dummy reference is explicit
+    if (prefixed_type.tagged_type->tagging_mode == TaggingMode::automatic &&
+        is_dummy_reference(prefixed_type.tagged_type->type, parameters))
+    {
+        prefixed_type.tagged_type->tagging_mode = TaggingMode::explicit_;
+    }
     resolve_parameterized(tree, module, prefixed_type.tagged_type->type, parameters);
 }
 
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 298d0da..da7a49f 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -195,9 +195,10 @@ void select_automatic_tags(Asn1Tree& tree)
 
 void add_automatic_tags(Asn1Tree& tree)
 {
-    auto add_tag = [](Type& type, int64_t tag_number) {
-        type = BuiltinType(
-            PrefixedType(TaggedType{Tag{Class::context_specific, tag_number}, TaggingMode::implicit, Type(type)}));
+    auto add_tag = [](NamedType& named_type, int64_t tag_number) {
+        const TaggingMode mode = named_type.is_dummy_reference ? TaggingMode::explicit_ : TaggingMode::implicit;
+        named_type.type        = BuiltinType(
+            PrefixedType(TaggedType{Tag{Class::context_specific, tag_number}, mode, Type(named_type.type)}));
     };
 
     for (Module& module : tree.modules)
@@ -212,7 +213,7 @@ void add_automatic_tags(Asn1Tree& tree)
                     {
                         if (collection.automatic_tags && component.is_extension == extensions)
                         {
-                            add_tag(component.named_type.type, tag_number++);
+                            add_tag(component.named_type, tag_number++);
                         }
                     }
                 }
@@ -223,7 +224,7 @@ void add_automatic_tags(Asn1Tree& tree)
                 {
                     if (choice.automatic_tags)
                     {
-                        add_tag(alternative.type, tag_number++);
+                        add_tag(alternative, tag_number++);
                     }
                 }
             });
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 2158675..3f740b5 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -479,6 +479,7 @@ struct NamedType
 {
     std::string name;
     Type        type;
+    bool        is_dummy_reference; // The type was given to a parameterized type
 };
 
 struct NamedValue
-- 
2.43.0


From a39fbaf4c3634a5188b21dbe5506b588d6d8b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 50/87] fix: references to the collections of a recursive
 CHOICE did not compile in some orders

---
 src/compiler/ReorderAssignments.cpp | 33 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index da7a49f..1d71bfc 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -338,15 +338,20 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                            [&](const Dependency& depend) { return depend.name == name; });
     };
 
+    auto resolved_reference = [&](const Type& type) -> Type {
+        return is_defined(type)
+                   ? without_tags(resolve_type(tree, module.module_reference, absl::get<DefinedType>(type)).type)
+                   : no_type;
+    };
+
+    auto is_collection_of = [&](const Type& type) -> bool {
+        const Type& resolved = resolved_reference(type);
+        return is_set_of(resolved) || is_sequence_of(resolved);
+    };
+
     // These are given dynamic storage themselves when they are circular, so can be defined before this assignment
     auto has_dynamic_definition = [&](const Type& type) -> bool {
-        if (!is_defined(without_tags(type)))
-        {
-            return false;
-        }
-        const Type& defined =
-            without_tags(resolve_type(tree, module.module_reference, absl::get<DefinedType>(without_tags(type))).type);
-        return is_choice(defined) || is_set_of(defined) || is_sequence_of(defined);
+        return is_choice(resolved_reference(type)) || is_collection_of(type);
     };
 
     if (is_type(assignment) && (is_choice(assigned_type) || is_set_of(assigned_type) || is_sequence_of(assigned_type)))
@@ -354,6 +359,16 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         // If circular dependancy, use dynamic storage. Else, resolve and use static storage
         if (is_circular({Dependency{name, module.module_reference}}))
         {
+            // A tagged reference to a collection contains its definition
+            for (const Dependency& dependency : std::vector<Dependency>(assignment.depends_on))
+            {
+                if (is_defined_here(dependency) && visited_names.count(dependency.name) == 0 &&
+                    is_collection_of(DefinedType{module.module_reference, dependency.name, {}}))
+                {
+                    resolve_all({dependency});
+                }
+            }
+
             // As type is now dynamic it doesn't have any dependencies
             assignment_infos[name].depends_on = {};
 
@@ -390,7 +405,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                 set_dynamic_storage(without_tags(component.named_type.type));
             }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && !has_dynamic_definition(component.named_type.type) &&
+            else if (component.is_optional && !has_dynamic_definition(without_tags(component.named_type.type)) &&
                      is_circular(depends_on(component.named_type.type)))
             {
                 std::cout << "Optional member[" << component.named_type.name << "] of [" << name
@@ -429,7 +444,7 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                 set_dynamic_storage(without_tags(component.named_type.type));
             }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && !has_dynamic_definition(component.named_type.type) &&
+            else if (component.is_optional && !has_dynamic_definition(without_tags(component.named_type.type)) &&
                      is_circular(depends_on(component.named_type.type)))
             {
                 std::cout << "Optional member[" << component.named_type.name << "] of [" << name
-- 
2.43.0


From 16775427c2af6c4ee2cceb9a039aeb001dc9c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 51/87] fix: recursive references were looked up in the tree
 instead of the module

---
 src/compiler/ReorderAssignments.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 1d71bfc..4d5eb96 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -338,10 +338,19 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                            [&](const Dependency& depend) { return depend.name == name; });
     };
 
-    auto resolved_reference = [&](const Type& type) -> Type {
-        return is_defined(type)
-                   ? without_tags(resolve_type(tree, module.module_reference, absl::get<DefinedType>(type)).type)
-                   : no_type;
+    auto resolved_reference = [&](Type type) -> Type {
+        for (std::size_t i = 0; i <= assignment_infos.size() && is_defined(type); i++)
+        {
+            const DefinedType& defined  = absl::get<DefinedType>(type);
+            const auto&        resolved = assignment_infos.find(defined.type_reference);
+            if (resolved == assignment_infos.end() || !is_type(resolved->second) ||
+                !is_defined_here(Dependency{defined.type_reference, defined.module_reference, false}))
+            {
+                break;
+            }
+            type = without_tags(::type(resolved->second));
+        }
+        return type;
     };
 
     auto is_collection_of = [&](const Type& type) -> bool {
-- 
2.43.0


From 517d425d57fe4dda5b95cae2a6a59ac9ac632a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 52/87] fix: components named errno, stdin, stdout or stderr,
 and types named EOF, did not compile

---
 src/compiler/CompilerTypes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 2d17dfd..7dbab31 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -119,6 +119,12 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "while",
     "xor",
     "xor_eq",
+    /* Macros of the standard library */
+    "EOF",
+    "errno",
+    "stderr",
+    "stdin",
+    "stdout",
     /* fast_ber*/
     "AcceptedIndex",
     "AcceptedType",
-- 
2.43.0


From ce5ee79b20efc772aebe7f49c8bab9947d8b5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 53/87] fix: components named construction and types named
 AliasedType did not compile

---
 src/compiler/CompilerTypes.cpp | 1 +
 src/compiler/CppGeneration.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 7dbab31..3aeb797 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -128,6 +128,7 @@ static const std::unordered_set<std::string> reserved_keywords = {
     /* fast_ber*/
     "AcceptedIndex",
     "AcceptedType",
+    "AliasedType",
     "AsnId",
     "BMPString",
     "BerView",
diff --git a/src/compiler/CppGeneration.cpp b/src/compiler/CppGeneration.cpp
index 86fd3a7..7b78746 100644
--- a/src/compiler/CppGeneration.cpp
+++ b/src/compiler/CppGeneration.cpp
@@ -65,10 +65,10 @@ std::string add_namespace(const std::string& name, const std::string& enclosed)
 
 // Names which generated classes refer to without qualification, or define
 static const std::unordered_set<std::string> generated_names = {
-    "AcceptedIndex", "AcceptedType", "AsnId",        "BerView",     "Choices",     "Class",  "DecodeResult",
-    "Default",       "DoubleId",     "EncodeResult", "ExactlyOnce", "ExplicitId",  "Id",     "IsChoiceId",
-    "Optional",      "SequenceOf",   "SetOf",        "Storage",     "StorageMode", "ToType", "ToTypeImpl",
-    "UniversalTag"};
+    "AcceptedIndex", "AcceptedType", "AsnId",      "BerView",    "Choices",      "Class",
+    "Construction",  "DecodeResult", "Default",    "DoubleId",   "EncodeResult", "ExactlyOnce",
+    "ExplicitId",    "Id",           "IsChoiceId", "Optional",   "SequenceOf",   "SetOf",
+    "Storage",       "StorageMode",  "ToType",     "ToTypeImpl", "UniversalTag"};
 
 // Creates a C++ type following conventions of project (ie starts with capital letter)
 std::string make_type_name(std::string name, absl::string_view parent_name)
-- 
2.43.0


From d937d26ef5d36b1ef9df1f728aa0e760a7e228ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 54/87] fix: emplacing an lvalue in a Choice did not compile

---
 include/fast_ber/ber_types/Choice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 919c003..8ac5e65 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -421,7 +421,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
               typename = absl::enable_if_t<std::is_constructible<T, Args...>::value && ExactlyOnce<T>::value>>
     T& emplace(Args&&... args)
     {
-        return m_base.template emplace<T, Args...>(std::forward<Args>(args)...);
+        return m_base.template emplace<T>(std::forward<Args>(args)...);
     }
 
     template <typename T, typename U, typename... Args,
@@ -429,7 +429,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
                                            ExactlyOnce<T>::value>>
     T& emplace(std::initializer_list<U> il, Args&&... args)
     {
-        return m_base.template emplace<T, U, Args...>(il, std::forward<Args>(args)...);
+        return m_base.template emplace<T>(il, std::forward<Args>(args)...);
     }
 
     template <size_t i, typename... Args>
-- 
2.43.0


From 0189df8cbe44f3484fb688ee623a5c6bc48dace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 55/87] fix: creating a Choice or variant from an rvalue copied
 it, and terminated when the copy threw

---
 include/fast_ber/ber_types/Choice.hpp    | 2 +-
 include/fast_ber/util/DynamicVariant.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 8ac5e65..9e7e965 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -366,7 +366,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
                                                        ExactlyOnce<AcceptedType<T&&>>::value &&
                                                        std::is_constructible<AcceptedType<T&&>, T&&>::value>>
     Choice(T&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
-        : m_base(typename Implementation::template InPlaceType<AcceptedType<T&&>>{}, t)
+        : m_base(typename Implementation::template InPlaceType<AcceptedType<T&&>>{}, std::forward<T>(t))
     {
         assert(holds_alternative<AcceptedType<T&&>>(*this));
     }
diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 49fb4d0..1757f63 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -339,7 +339,7 @@ class DynamicVariant
               typename = absl::enable_if_t<ExactlyOnce<AcceptedType<T&&>>::value &&
                                            std::is_constructible<AcceptedType<T&&>, T&&>::value>>
     DynamicVariant(T&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
-        : m_index(detail::IndexOf<AcceptedType<T&&>, Types...>::value), m_data(new AcceptedType<T&&>(t))
+        : m_index(detail::IndexOf<AcceptedType<T&&>, Types...>::value), m_data(new AcceptedType<T&&>(std::forward<T>(t)))
     {
         assert(holds_alternative<AcceptedType<T&&>>(*this));
     }
-- 
2.43.0


From d20cd70a5a43a0a5e051cff7ff103d378422c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 56/87] fix: assigning a Choice its own alternative used it
 after its destruction

---
 include/fast_ber/ber_types/Choice.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 9e7e965..88f30fd 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -413,7 +413,9 @@ struct Choice<Choices<Types...>, Identifier, storage>
     operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        m_base.template emplace<AcceptedType<T&&>>(std::forward<T&&>(t));
+        // t may be part of the alternative which is replaced
+        m_base = typename Implementation::Type(typename Implementation::template InPlaceType<AcceptedType<T&&>>{},
+                                               std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From e35cfd2c85b9b0d98268df39743cb818a86f4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 57/87] fix: get of a temporary Choice, or by type of a dynamic
 one, and in_place construction of generated CHOICEs did not compile

---
 include/fast_ber/ber_types/Choice.hpp | 22 ++++++++++++++--------
 src/compiler/GenerateChoice.cpp       |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 88f30fd..a419950 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -185,7 +185,7 @@ T& get(Choice<Choices<Types...>, Identifier, StorageMode::static_>& v)
 template <class T, typename... Types, typename Identifier>
 T&& get(Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<T>(v.base());
+    return absl::get<T>(std::move(v.base()));
 }
 
 template <class T, typename... Types, typename Identifier>
@@ -197,7 +197,7 @@ const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&
 template <class T, typename... Types, typename Identifier>
 const T&& get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<T>(v.base());
+    return absl::get<T>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -211,7 +211,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::static_>>&&
 get(Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<I>(v.base());
+    return absl::get<I>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -225,15 +225,21 @@ template <std::size_t I, typename... Types, typename Identifier>
 const variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::static_>>&&
 get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<I>(v.base());
+    return absl::get<I>(std::move(v.base()));
 }
 
 template <class T, typename... Types, typename Identifier>
-T&& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
+T& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>& v)
 {
     return fast_ber::dynamic::get<T>(v.base());
 }
 
+template <class T, typename... Types, typename Identifier>
+T&& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
+{
+    return fast_ber::dynamic::get<T>(std::move(v.base()));
+}
+
 template <class T, typename... Types, typename Identifier>
 const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>& v)
 {
@@ -243,7 +249,7 @@ const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&
 template <class T, typename... Types, typename Identifier>
 const T&& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<T>(v.base());
+    return fast_ber::dynamic::get<T>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -257,7 +263,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::dynamic>>&&
 get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<I>(v.base());
+    return fast_ber::dynamic::get<I>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -271,7 +277,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 const variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::dynamic>>&&
 get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<I>(v.base());
+    return fast_ber::dynamic::get<I>(std::move(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index 7c90e0c..caaced1 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -87,7 +87,7 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
         block.add_line(
             "    typename = absl::enable_if_t<ExactlyOnce<T_>::value && std::is_constructible<T_, Args&&...>::value>>");
         block.add_line("explicit " + name +
-                       "(in_place_type_t<T_> i, Args&&... args) : m_storage(std::forward<Args>(i, args)...) {}");
+                       "(in_place_type_t<T_> i, Args&&... args) : m_storage(i, std::forward<Args>(args)...) {}");
 
         block.add_line("template <typename T_, typename U, typename... Args,");
         block.add_line("    typename = absl::enable_if_t<ExactlyOnce<T_>::value && std::is_constructible<T_, "
-- 
2.43.0


From 6d5a5b5971c4c00f7c9b832935cb7cbb1bd1cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 58/87] fix: assigning a BerView to a BerContainer did not link

---
 include/fast_ber/util/BerContainer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index e148f89..6eba3b3 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -98,6 +98,12 @@ inline BerContainer::BerContainer(Construction input_construction, Class input_c
     assign_content(input_construction, input_class, input_tag, input_content);
 }
 
+inline BerContainer& BerContainer::operator=(const BerView input_view) noexcept
+{
+    decode(input_view);
+    return *this;
+}
+
 inline BerContainer& BerContainer::operator=(const BerContainer& container) noexcept
 {
     if (this != &container)
-- 
2.43.0


From 822c894a00409749d548271f1ff031ffd7b20e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 59/87] fix: a FixedIdBerContainer created from something else
 than its packet held no packet at all

---
 include/fast_ber/util/FixedIdBerContainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index d5cb052..2559621 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -26,7 +26,7 @@ class FixedIdBerContainer
     FixedIdBerContainer() noexcept;
     FixedIdBerContainer(const FixedIdBerContainer& rhs) noexcept;
     FixedIdBerContainer(FixedIdBerContainer&& rhs) noexcept;
-    FixedIdBerContainer(BerView input_view) noexcept { decode(input_view); }
+    FixedIdBerContainer(BerView input_view) noexcept : FixedIdBerContainer() { decode(input_view); }
     FixedIdBerContainer(absl::Span<const uint8_t> input_data, ConstructionMethod method) noexcept;
     FixedIdBerContainer(Construction input_construction, Class input_class, Tag input_tag,
                         absl::Span<const uint8_t> input_content) noexcept;
@@ -106,7 +106,7 @@ FixedIdBerContainer<Identifier>::FixedIdBerContainer(FixedIdBerContainer&& rhs)
 template <typename Identifier>
 FixedIdBerContainer<Identifier>::FixedIdBerContainer(absl::Span<const uint8_t> input_data,
                                                      ConstructionMethod        method) noexcept
-    : m_data()
+    : FixedIdBerContainer()
 {
     if (method == ConstructionMethod::construct_with_provided_content)
     {
-- 
2.43.0


From 72fdf45326fe3719affeb35d243a33e43cae1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 60/87] fix: printing a string did not escape quotes and
 backslashes, and gave isprint negative characters

---
 include/fast_ber/ber_types/StringImpl.hpp | 11 ++------
 include/fast_ber/util/QuotedString.hpp    | 31 +++++++++++++++++++++++
 2 files changed, 33 insertions(+), 9 deletions(-)
 create mode 100644 include/fast_ber/util/QuotedString.hpp

diff --git a/include/fast_ber/ber_types/StringImpl.hpp b/include/fast_ber/ber_types/StringImpl.hpp
index d62c39d..5bf586b 100644
--- a/include/fast_ber/ber_types/StringImpl.hpp
+++ b/include/fast_ber/ber_types/StringImpl.hpp
@@ -3,12 +3,12 @@
 #include "fast_ber/util/DecodeHelpers.hpp"
 #include "fast_ber/util/EncodeHelpers.hpp"
 #include "fast_ber/util/FixedIdBerContainer.hpp"
+#include "fast_ber/util/QuotedString.hpp"
 
 #include "absl/strings/string_view.h"
 #include "absl/types/span.h"
 
 #include <algorithm>
-#include <cctype>
 #include <string>
 
 namespace fast_ber
@@ -155,14 +155,7 @@ bool StringImpl<tag, Identifier>::operator==(const char* rhs) const noexcept
 template <UniversalTag tag, typename Identifier>
 std::ostream& operator<<(std::ostream& os, const StringImpl<tag, Identifier>& str) noexcept
 {
-    if (std::all_of(str.begin(), str.end(), [](char c) { return std::isprint(c); }))
-    {
-        return os << '"' << absl::string_view(str) << '"';
-    }
-    else
-    {
-        return os << "\"binary data\"";
-    }
+    return write_quoted(os, absl::string_view(str));
 }
 
 template <UniversalTag tag, typename Identifier>
diff --git a/include/fast_ber/util/QuotedString.hpp b/include/fast_ber/util/QuotedString.hpp
new file mode 100644
index 0000000..4b8caf4
--- /dev/null
+++ b/include/fast_ber/util/QuotedString.hpp
@@ -0,0 +1,31 @@
+#pragma once
+
+#include "absl/strings/string_view.h"
+
+#include <algorithm>
+#include <ostream>
+
+namespace fast_ber
+{
+
+// Prints a string as a JSON string, or a placeholder if it is not plain text
+inline std::ostream& write_quoted(std::ostream& os, absl::string_view str) noexcept
+{
+    if (!std::all_of(str.begin(), str.end(), [](char c) { return c >= 0x20 && c < 0x7f; }))
+    {
+        return os << "\"binary data\"";
+    }
+
+    os << '"';
+    for (char c : str)
+    {
+        if (c == '"' || c == '\\')
+        {
+            os << '\\';
+        }
+        os << c;
+    }
+    return os << '"';
+}
+
+} // namespace fast_ber
-- 
2.43.0


From 76a0210405d9a3b12391b482054a8dffab09cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 61/87] fix: printing a GeneralizedTime did not quote it, and
 threw for received text which is not a time

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 640009d..83ec551 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -3,6 +3,7 @@
 #include "fast_ber/util/DecodeHelpers.hpp"
 #include "fast_ber/util/EncodeHelpers.hpp"
 #include "fast_ber/util/FixedIdBerContainer.hpp"
+#include "fast_ber/util/QuotedString.hpp"
 
 #include "absl/strings/string_view.h"
 #include "absl/time/time.h"
@@ -225,7 +226,14 @@ DecodeResult GeneralizedTime<Identifier>::decode(BerView view) noexcept
 template <typename Identifier>
 std::ostream& operator<<(std::ostream& os, const GeneralizedTime<Identifier>& time)
 {
-    return os << time.time();
+    try
+    {
+        return os << '"' << time.time() << '"';
+    }
+    catch (const std::runtime_error&)
+    {
+        return write_quoted(os, time.string()); // received text which is not a time
+    }
 }
 
 } // namespace fast_ber
-- 
2.43.0


From 53688d800d5809213d4def3f44a03ffd06914de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 62/87] fix: printing a Real gave six digits only, and no JSON
 for infinity and NaN

---
 include/fast_ber/ber_types/Real.hpp |  3 ++-
 src/ber_types/Real.cpp              | 37 +++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 11d9785..6f59c8b 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -26,6 +26,7 @@ inline bool   decode_real(absl::Span<const uint8_t> input, double& output) noexc
 inline bool   decode_real_special(absl::Span<const uint8_t> input, double& output) noexcept;
 inline bool   decode_real_binary(absl::Span<const uint8_t> input, double& output) noexcept;
 bool          decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexcept; // In .cpp due to <regex>
+std::ostream& write_real(std::ostream& os, double value) noexcept;                           // In .cpp due to <sstream>
 inline bool   check_real_binary(absl::Span<const uint8_t> input) noexcept;
 inline size_t encode_real(absl::Span<uint8_t> output, double input) noexcept;
 
@@ -480,7 +481,7 @@ DecodeResult Real<Identifier>::decode(BerView input) noexcept
 template <typename Identifier>
 std::ostream& operator<<(std::ostream& os, const Real<Identifier>& object) noexcept
 {
-    return os << object.value();
+    return write_real(os, object.value());
 }
 
 } // namespace fast_ber
diff --git a/src/ber_types/Real.cpp b/src/ber_types/Real.cpp
index 926257a..a1d11cd 100644
--- a/src/ber_types/Real.cpp
+++ b/src/ber_types/Real.cpp
@@ -1,6 +1,11 @@
 #include "fast_ber/ber_types/Real.hpp"
 
+#include <cmath>
+#include <iomanip>
+#include <limits>
+#include <locale>
 #include <regex>
+#include <sstream>
 
 namespace fast_ber
 {
@@ -34,4 +39,36 @@ bool decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexce
     }
 }
 
+/**
+ * Prints a real value as a JSON number which reads back as the same value, or a string if it is not a number
+ */
+std::ostream& write_real(std::ostream& os, double value) noexcept
+{
+    if (std::isnan(value))
+    {
+        return os << "\"NOT-A-NUMBER\"";
+    }
+    if (std::isinf(value))
+    {
+        return os << (value > 0 ? "\"PLUS-INFINITY\"" : "\"MINUS-INFINITY\"");
+    }
+
+    std::ostringstream text;
+    text.imbue(std::locale::classic());
+    for (int digits = std::numeric_limits<double>::digits10; digits <= std::numeric_limits<double>::max_digits10;
+         digits++)
+    {
+        double printed = 0;
+
+        text.str("");
+        text << std::setprecision(digits) << value;
+        absl::SimpleAtod(text.str(), &printed);
+        if (printed >= value && printed <= value)
+        {
+            break;
+        }
+    }
+    return os << text.str();
+}
+
 } // namespace fast_ber
-- 
2.43.0


From d4fa5ae60e1f98eefe3aabac993b1ef984510be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 63/87] fix: the viewer printed nothing for REAL, default
 values for malformed primitives, and overflowed the stack on deep nesting

---
 src/util/BerView.cpp | 244 +++++++++++++++++++++++++------------------
 1 file changed, 141 insertions(+), 103 deletions(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index f2925f8..9edcb5e 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -1,131 +1,169 @@
 #include "fast_ber/util/BerView.hpp"
 #include "fast_ber/ber_types/All.hpp"
 
+#include <vector>
+
 namespace fast_ber
 {
+// Prints the value held by a primitive, or its content if that is not a value of the type
+template <typename T>
+void print_value(std::ostream& os, const BerView& view)
+{
+    T value;
+    if (value.decode(view).success)
+    {
+        os << value;
+    }
+    else
+    {
+        os << OctetString<>(view.content());
+    }
+}
+
+void print_primitive(std::ostream& os, const BerView& view)
+{
+    if (view.class_() != Class::universal)
+    {
+        os << OctetString<>(view.content());
+        return;
+    }
+
+    switch (static_cast<UniversalTag>(view.tag()))
+    {
+    case UniversalTag::boolean:
+        print_value<Boolean<>>(os, view);
+        break;
+    case UniversalTag::integer:
+        print_value<Integer<>>(os, view);
+        break;
+    case UniversalTag::bit_string:
+        print_value<BitString<>>(os, view);
+        break;
+    case UniversalTag::octet_string:
+        print_value<OctetString<>>(os, view);
+        break;
+    case UniversalTag::null:
+        print_value<Null<>>(os, view);
+        break;
+    case UniversalTag::object_identifier:
+        print_value<ObjectIdentifier<>>(os, view);
+        break;
+    case UniversalTag::real:
+        print_value<Real<>>(os, view);
+        break;
+    case UniversalTag::enumerated:
+        print_value<Integer<ExplicitId<UniversalTag::enumerated>>>(os, view);
+        break;
+    case UniversalTag::utf8_string:
+        print_value<UTF8String<>>(os, view);
+        break;
+    case UniversalTag::numeric_string:
+        print_value<NumericString<>>(os, view);
+        break;
+    case UniversalTag::printable_string:
+        print_value<PrintableString<>>(os, view);
+        break;
+    case UniversalTag::teletex_string:
+        print_value<TeletexString<>>(os, view);
+        break;
+    case UniversalTag::videotex_string:
+        print_value<VideotexString<>>(os, view);
+        break;
+    case UniversalTag::ia5_string:
+        print_value<IA5String<>>(os, view);
+        break;
+    case UniversalTag::utc_time:
+        print_value<UTCTime<>>(os, view);
+        break;
+    case UniversalTag::generalized_time:
+        print_value<GeneralizedTime<>>(os, view);
+        break;
+    case UniversalTag::graphic_string:
+        print_value<GraphicString<>>(os, view);
+        break;
+    case UniversalTag::visible_string:
+        print_value<VisibleString<>>(os, view);
+        break;
+    case UniversalTag::general_string:
+        print_value<GeneralString<>>(os, view);
+        break;
+    case UniversalTag::universal_string:
+        print_value<UniversalString<>>(os, view);
+        break;
+    case UniversalTag::character_string:
+        print_value<CharacterString<>>(os, view);
+        break;
+    case UniversalTag::bmp_string:
+        print_value<BMPString<>>(os, view);
+        break;
+
+    case UniversalTag::embedded_pdv:
+    case UniversalTag::relative_oid:
+    case UniversalTag::sequence:
+    case UniversalTag::set:
+    case UniversalTag::reserved:
+    case UniversalTag::object_descriptor:
+    case UniversalTag::instance_of:
+    default:
+        os << OctetString<>(view.content());
+    }
+}
+
 std::ostream& operator<<(std::ostream& os, BerView view) noexcept
 {
+    struct Level
+    {
+        BerViewIterator next;
+        bool            first;
+    };
+
     if (!view.is_valid())
     {
         os << "null";
         return os;
     }
 
-    os << "{ \"length\": " << view.ber_length();
-    os << ", \"identifier\": " << view.identifier();
-    os << ", \"content\": ";
-    if (view.construction() == Construction::primitive)
-    {
-        if (view.class_() == Class::universal)
-        {
-            try
-            {
-                switch (static_cast<UniversalTag>(view.tag()))
-                {
-                case UniversalTag::boolean:
-                    os << Boolean<>(view);
-                    break;
-                case UniversalTag::integer:
-                    os << Integer<>(view);
-                    break;
-                case UniversalTag::bit_string:
-                    os << BitString<>(view);
-                    break;
-                case UniversalTag::octet_string:
-                    os << OctetString<>(view);
-                    break;
-                case UniversalTag::null:
-                    os << Null<>(view);
-                    break;
-                case UniversalTag::object_identifier:
-                    os << ObjectIdentifier<>(view);
-                    break;
-                case UniversalTag::real:
-                    // os << Real<>(view);
-                    break;
-                case UniversalTag::enumerated:
-                    os << Integer<>(view);
-                    break;
-                case UniversalTag::utf8_string:
-                    os << UTF8String<>(view);
-                    break;
-                case UniversalTag::numeric_string:
-                    os << NumericString<>(view);
-                    break;
-                case UniversalTag::printable_string:
-                    os << PrintableString<>(view);
-                    break;
-                case UniversalTag::teletex_string:
-                    os << TeletexString<>(view);
-                    break;
-                case UniversalTag::videotex_string:
-                    os << VideotexString<>(view);
-                    break;
-                case UniversalTag::ia5_string:
-                    os << IA5String<>(view);
-                    break;
-                case UniversalTag::utc_time:
-                    os << UTCTime<>(view);
-                    break;
-                case UniversalTag::generalized_time:
-                    os << GeneralizedTime<>(view);
-                    break;
-                case UniversalTag::graphic_string:
-                    os << GraphicString<>(view);
-                    break;
-                case UniversalTag::visible_string:
-                    os << VisibleString<>(view);
-                    break;
-                case UniversalTag::general_string:
-                    os << GeneralString<>(view);
-                    break;
-                case UniversalTag::universal_string:
-                    os << UniversalString<>(view);
-                    break;
-                case UniversalTag::character_string:
-                    os << CharacterString<>(view);
-                    break;
-                case UniversalTag::bmp_string:
-                    os << BMPString<>(view);
-                    break;
+    // Elements may be nested arbitrarily deep, so the open ones are kept here instead of on the stack
+    std::vector<Level> open;
 
-                case UniversalTag::embedded_pdv:
-                case UniversalTag::relative_oid:
-                case UniversalTag::sequence:
-                case UniversalTag::set:
-                case UniversalTag::reserved:
-                case UniversalTag::object_descriptor:
-                case UniversalTag::instance_of:
-                default:
-                    os << OctetString<>(view.content());
-                }
-            }
-            catch (const std::exception& e)
-            {
-                os << OctetString<>(view.content());
-            }
+    const auto print_start = [&](const BerView& element) {
+        os << "{ \"length\": " << element.ber_length();
+        os << ", \"identifier\": " << element.identifier();
+        os << ", \"content\": ";
+        if (element.construction() == Construction::primitive)
+        {
+            print_primitive(os, element);
+            os << " }";
         }
         else
         {
-            os << OctetString<>(view.content());
+            os << "[";
+            open.push_back({element.begin(), true});
         }
-    }
-    else
+    };
+
+    print_start(view);
+    while (!open.empty())
     {
-        bool first = true;
-        os << "[";
-        for (const BerView& child : view)
+        Level& level = open.back();
+        if (level.next->is_valid())
         {
-            if (!first)
+            const BerView element = *level.next;
+            if (!level.first)
             {
                 os << ", ";
             }
-            os << child;
-            first = false;
+            level.first = false;
+            ++level.next;
+            print_start(element);
+        }
+        else
+        {
+            open.pop_back();
+            os << "] }";
         }
-        os << "]";
     }
-    return os << " }";
+    return os;
 }
 
 } // namespace fast_ber
-- 
2.43.0


From 1cd1e0bd85c169da94e9319f0e7e96908b6b3ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 64/87] fix: T61String had the tag of VisibleString

---
 include/fast_ber/ber_types/T61String.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/T61String.hpp b/include/fast_ber/ber_types/T61String.hpp
index 166f597..0d6c13e 100644
--- a/include/fast_ber/ber_types/T61String.hpp
+++ b/include/fast_ber/ber_types/T61String.hpp
@@ -6,6 +6,6 @@
 
 namespace fast_ber
 {
-template <typename Identifier = ExplicitId<UniversalTag::visible_string>>
-using T61String = fast_ber::StringImpl<UniversalTag::visible_string, Identifier>;
+template <typename Identifier = ExplicitId<UniversalTag::teletex_string>>
+using T61String = fast_ber::StringImpl<UniversalTag::teletex_string, Identifier>;
 }
-- 
2.43.0


From 377671f9df2483e27f866be09013e2e6638ac746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 65/87] fix: T61String was not among the types, and did not
 compile

---
 include/fast_ber/ber_types/All.hpp       | 1 +
 include/fast_ber/ber_types/T61String.hpp | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/All.hpp b/include/fast_ber/ber_types/All.hpp
index 7825bb9..2d67bb4 100644
--- a/include/fast_ber/ber_types/All.hpp
+++ b/include/fast_ber/ber_types/All.hpp
@@ -34,6 +34,7 @@
 #include "SequenceOf.hpp"
 #include "Set.hpp"
 #include "SetOf.hpp"
+#include "T61String.hpp"
 #include "TeletexString.hpp"
 #include "Time.hpp"
 #include "TimeOfDay.hpp"
diff --git a/include/fast_ber/ber_types/T61String.hpp b/include/fast_ber/ber_types/T61String.hpp
index 0d6c13e..1782f93 100644
--- a/include/fast_ber/ber_types/T61String.hpp
+++ b/include/fast_ber/ber_types/T61String.hpp
@@ -2,7 +2,6 @@
 
 #include "fast_ber/ber_types/StringImpl.hpp"
 #include "fast_ber/ber_types/Tag.hpp"
-#include "fast_ber/ber_types/TaggedType.hpp"
 
 namespace fast_ber
 {
-- 
2.43.0


From eed321fd609960ef338f418fdd1e9ff787d601ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 66/87] fix: T61String was generated as T161String, which does
 not exist

---
 src/compiler/include/fast_ber/compiler/CompilerTypes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 3f740b5..57238b6 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -216,7 +216,7 @@ inline std::string to_string(CharacterStringType type)
     case CharacterStringType::teletex_string:
         return "fast_ber::TeletexString";
     case CharacterStringType::t61_string:
-        return "fast_ber::T161String";
+        return "fast_ber::T61String";
     case CharacterStringType::universal_string:
         return "fast_ber::UniversalString";
     case CharacterStringType::utf8_string:
-- 
2.43.0


From 542e4b686b76b19286e64dbd97fd235cb34834a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 67/87] fix: printing received text which is not a time left a
 stray quote

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 83ec551..fce0742 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -228,7 +228,8 @@ std::ostream& operator<<(std::ostream& os, const GeneralizedTime<Identifier>& ti
 {
     try
     {
-        return os << '"' << time.time() << '"';
+        const absl::Time instant = time.time();
+        return os << '"' << instant << '"';
     }
     catch (const std::runtime_error&)
     {
-- 
2.43.0


From 38f3b57eaf02fd3e292528487fb3a1024b89db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 68/87] fix: the viewer was aborted when its input could not be
 read, like a directory

---
 src/view/view.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/view/view.cpp b/src/view/view.cpp
index ddf4c36..c1a0021 100644
--- a/src/view/view.cpp
+++ b/src/view/view.cpp
@@ -26,8 +26,18 @@ int main(int argc, const char** argv)
         return -1;
     }
 
-    const auto buffer = std::vector<uint8_t>{std::istreambuf_iterator<char>(input), std::istreambuf_iterator<char>()};
-    auto       view   = fast_ber::BerView(buffer);
+    std::vector<uint8_t> buffer;
+    try
+    {
+        buffer.assign(std::istreambuf_iterator<char>(input), std::istreambuf_iterator<char>());
+    }
+    catch (const std::ios_base::failure&)
+    {
+        std::cout << "Failed to read input: " << input_path << std::endl;
+        return -1;
+    }
+
+    auto view = fast_ber::BerView(buffer);
 
     std::cout << view;
     return view.is_valid() ? 0 : -1;
-- 
2.43.0


From 86252a8cb0c1a258516dec3741ae66a1e455d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 69/87] fix: named numbers belong to the module of their type,
 and values may refer to them

---
 src/compiler/TypeAsString.cpp                 |  9 ++--
 src/compiler/ValueAsString.cpp                | 52 ++++++++++++++-----
 .../fast_ber/compiler/ValueAsString.hpp       |  3 +-
 src/compiler_main/CompilerMain.cpp            |  6 +--
 4 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 71dc224..c7fd71d 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -71,15 +71,14 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
                 std::string name = component.named_type.name;
                 name[0]          = std::toupper(name[0]);
 
-                const NamedType& value_named_type =
-                    concrete_type(NamedType{make_type_name(component.named_type.name, type_name),
-                                            component.named_type.type},
-                                  module, tree);
+                const NamedType& component_type =
+                    NamedType{make_type_name(component.named_type.name, type_name), component.named_type.type};
+                const NamedType& value_named_type = concrete_type(component_type, module, tree);
                 const std::string& constness = is_oid(value_named_type.type) ? "static " : "constexpr static ";
                 block.add_line("struct DefaultValue" + name + " { " + constness +
                                value_type(value_named_type.type, module, tree, value_named_type.name) +
                                " get_value() noexcept { return " +
-                               value_as_string(value_named_type, *component.default_value, module, tree) + "; } };");
+                               value_as_string(component_type, *component.default_value, module, tree) + "; } };");
                 has_defaults = true;
             }
         }
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 569fb16..72a4430 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -164,7 +164,32 @@ static bool find_well_known_arc(const std::string& name, const std::vector<int64
     return false;
 }
 
-static int64_t integer_value(const std::string& reference, const Module& module, const Asn1Tree& tree, int depth = 0)
+static int64_t integer_value(const std::string& reference, const Module& module, const Asn1Tree& tree, int depth = 0);
+
+// Named numbers are defined in the module of the type
+static bool find_named_number(const std::string& name, const Type& type, const Module& module, const Asn1Tree& tree,
+                              int64_t& number, int depth = 0)
+{
+    const NamedTypeAndModule& definition =
+        resolve_type_and_module(tree, module.module_reference, NamedType{name, type});
+    const Type& concrete = without_tags(definition.type.type);
+    if (!is_integer(concrete))
+    {
+        return false;
+    }
+    for (const NamedNumber& named : absl::get<IntegerType>(absl::get<BuiltinType>(concrete)).named_numbers)
+    {
+        if (named.name == name)
+        {
+            number = named.reference.empty() ? named.number
+                                             : integer_value(named.reference, definition.module, tree, depth + 1);
+            return true;
+        }
+    }
+    return false;
+}
+
+static int64_t integer_value(const std::string& reference, const Module& module, const Asn1Tree& tree, int depth)
 {
     const ValueAssignment* value_assignment = nullptr;
     const Module*          value_module     = nullptr;
@@ -176,7 +201,13 @@ static int64_t integer_value(const std::string& reference, const Module& module,
     const Value& value = value_assignment->value;
     if (absl::holds_alternative<DefinedValue>(value.value_selection))
     {
-        return integer_value(absl::get<DefinedValue>(value.value_selection).reference, *value_module, tree, depth + 1);
+        const std::string& defined = absl::get<DefinedValue>(value.value_selection).reference;
+        int64_t            number  = 0;
+        if (find_named_number(defined, value_assignment->type, *value_module, tree, number, depth))
+        {
+            return number;
+        }
+        return integer_value(defined, *value_module, tree, depth + 1);
     }
     if (!absl::holds_alternative<int64_t>(value.value_selection))
     {
@@ -342,9 +373,9 @@ static bool is_value_of_type(const Type& type, const Value& value)
     return true;
 }
 
-std::string value_as_string(const NamedType& value_type, const Value& value, const Module& module, const Asn1Tree& tree)
+std::string value_as_string(const NamedType& type, const Value& value, const Module& module, const Asn1Tree& tree)
 {
-    assert(!is_defined(value_type.type)); // value_type should be concrete
+    const NamedType& value_type = concrete_type(type, module, tree);
 
     if (is_oid(value_type.type))
     {
@@ -366,17 +397,10 @@ std::string value_as_string(const NamedType& value_type, const Value& value, con
         {
             return value_type.name + "Values::" + reference;
         }
-        if (is_integer(value_type.type) && is_item_of_type(value_type.type, reference))
+        int64_t number = 0;
+        if (find_named_number(reference, type.type, module, tree, number))
         {
-            for (const NamedNumber& number :
-                 absl::get<IntegerType>(absl::get<BuiltinType>(value_type.type)).named_numbers)
-            {
-                if (number.name == reference)
-                {
-                    return cpp_integer(number.reference.empty() ? number.number
-                                                                : integer_value(number.reference, module, tree));
-                }
-            }
+            return cpp_integer(number);
         }
 
         const ValueAssignment* value_assignment = nullptr;
diff --git a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
index 5e2cb7d..4bba44a 100644
--- a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
@@ -10,5 +10,4 @@ bool is_item_of_type(const Type& type, const std::string& reference);
 // The number of each item
 std::vector<int64_t> enumeration_numbers(const EnumeratedType& enumerated, const Module& module, const Asn1Tree& tree);
 
-std::string value_as_string(const NamedType& value_type, const Value& value, const Module& module,
-                            const Asn1Tree& tree);
+std::string value_as_string(const NamedType& type, const Value& value, const Module& module, const Asn1Tree& tree);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 04d6626..dfc0631 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -43,8 +43,8 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
             log_debug(tree, "Creating value assignment: " + module.module_reference + "." + assignment.name);
 
             const ValueAssignment& value_assign = absl::get<ValueAssignment>(assignment.specific);
-            const NamedType&       named_type =
-                concrete_type(NamedType{assignment.name, value_assign.type}, module, tree);
+            const NamedType&       assigned     = NamedType{assignment.name, value_assign.type};
+            const NamedType&       named_type   = concrete_type(assigned, module, tree);
 
             std::string constness =
                 is_oid(named_type.type) ? std::string("static const ") : std::string("static constexpr ");
@@ -52,7 +52,7 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
             std::string result =
                 constness + value_type(named_type.type, module, tree, named_type.name) + " " + assignment.name + " = ";
 
-            result += value_as_string(named_type, value_assign.value, module, tree) + ";\n";
+            result += value_as_string(assigned, value_assign.value, module, tree) + ";\n";
             return result;
         }
         else if (absl::holds_alternative<TypeAssignment>(assignment.specific))
-- 
2.43.0


From 150bc7fe4804139b07c16f9f42e5606d4aaf0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 70/87] fix: refuse a value which does not match its type
 instead of generating invalid or converted constants

---
 src/compiler/ValueAsString.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 72a4430..d90af88 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -370,7 +370,19 @@ static bool is_value_of_type(const Type& type, const Value& value)
     {
         return is_string;
     }
-    return true;
+    return absl::holds_alternative<NullType>(absl::get<BuiltinType>(type)) &&
+           absl::holds_alternative<NullValue>(selection);
+}
+
+// Can a value of one type be defined by a reference to a value of the other
+static bool is_compatible(const NamedType& type, const NamedType& referenced)
+{
+    if (!absl::holds_alternative<BuiltinType>(type.type) || !absl::holds_alternative<BuiltinType>(referenced.type) ||
+        absl::get<BuiltinType>(type.type).index() != absl::get<BuiltinType>(referenced.type).index())
+    {
+        return false;
+    }
+    return !is_enumerated(type.type) || type.name == referenced.name;
 }
 
 std::string value_as_string(const NamedType& type, const Value& value, const Module& module, const Asn1Tree& tree)
@@ -409,6 +421,11 @@ std::string value_as_string(const NamedType& type, const Value& value, const Mod
         {
             throw std::runtime_error("Reference to undefined value: " + reference);
         }
+        const NamedType& referenced = concrete_type(NamedType{reference, value_assignment->type}, *value_module, tree);
+        if (!is_compatible(value_type, referenced))
+        {
+            throw std::runtime_error("Value [" + value_type.name + "] does not match the type of " + reference);
+        }
         return "::fast_ber::" + value_module->module_reference + "::" + reference;
     }
     else if (!is_value_of_type(value_type.type, value))
-- 
2.43.0


From eb8131936103b3544ae2c640296f69186519670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 71/87] fix: declare the enumeration of a value of an unnamed
 enumerated type

---
 src/compiler/TypeAsString.cpp                 | 34 ++++++++++++-------
 .../fast_ber/compiler/TypeAsString.hpp        |  4 +++
 src/compiler_main/CompilerMain.cpp            | 10 +++++-
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index c7fd71d..73c88c1 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -427,6 +427,26 @@ CodeBlock create_contained_type(const std::string& name, const Type& type, const
     return create_type_assignment(name, type, module, tree, {}, false);
 }
 
+CodeBlock create_enumeration(const std::string& name, const EnumeratedType& enumerated, const Module& module,
+                             const Asn1Tree& tree)
+{
+    CodeBlock                   block;
+    const std::vector<int64_t>& numbers = enumeration_numbers(enumerated, module, tree);
+
+    const bool is_int = std::all_of(numbers.begin(), numbers.end(), [](int64_t number) {
+        return number >= std::numeric_limits<int32_t>::min() && number <= std::numeric_limits<int32_t>::max();
+    });
+    block.add_line("enum class " + name + "Values" + (is_int ? "" : " : int64_t"));
+    {
+        CodeScope scope(block, true);
+        for (std::size_t i = 0; i < numbers.size(); i++)
+        {
+            block.add_line(enumerated.enum_values[i].name + " = " + cpp_integer(numbers[i]) + ',');
+        }
+    }
+    return block;
+}
+
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
                                  const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type)
 {
@@ -440,18 +460,8 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     }
     else if (is_enumerated(assignment_type))
     {
-        const EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(assignment_type));
-        const std::vector<int64_t>& numbers = enumeration_numbers(enumerated, module, tree);
-
-        const bool is_int = std::all_of(numbers.begin(), numbers.end(), [](int64_t number) {
-            return number >= std::numeric_limits<int32_t>::min() && number <= std::numeric_limits<int32_t>::max();
-        });
-        block.add_line("enum class " + name + "Values" + (is_int ? "" : " : int64_t"));
-        CodeScope scope(block, true);
-        for (std::size_t i = 0; i < numbers.size(); i++)
-        {
-            block.add_line(enumerated.enum_values[i].name + " = " + cpp_integer(numbers[i]) + ',');
-        }
+        block.add_block(
+            create_enumeration(name, absl::get<EnumeratedType>(absl::get<BuiltinType>(assignment_type)), module, tree));
     }
     else if (is_set_of(assignment_type))
     {
diff --git a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
index 62fdec1..7762ba3 100644
--- a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
@@ -115,6 +115,10 @@ inline std::string type_name(const DefinedType&) { return "DefinedType"; }
 inline std::string type_name(const BuiltinType& t) { return absl::visit(TypeNameHelper{}, (t)); }
 inline std::string type_name(const Type& t) { return absl::visit(TypeNameHelper{}, (t)); }
 
+// The C++ enumeration which holds the values of an enumerated type
+CodeBlock create_enumeration(const std::string& name, const EnumeratedType& enumerated, const Module& module,
+                             const Asn1Tree& tree);
+
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
                                  const Asn1Tree& tree, const std::string& identifier_override = {},
                                  bool introduce_type = true);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index dfc0631..6cd39ff 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -49,7 +49,15 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
             std::string constness =
                 is_oid(named_type.type) ? std::string("static const ") : std::string("static constexpr ");
 
-            std::string result =
+            std::string result;
+            const Type& type = without_tags(value_assign.type);
+            if (is_enumerated(type))
+            {
+                const EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(type));
+                result += create_enumeration(assignment.name, enumerated, module, tree).to_string();
+            }
+
+            result +=
                 constness + value_type(named_type.type, module, tree, named_type.name) + " " + assignment.name + " = ";
 
             result += value_as_string(assigned, value_assign.value, module, tree) + ";\n";
-- 
2.43.0


From 781ccebed80775a846538750c126fa07257dab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 72/87] fix: a Default created from an object of its type
 compared it with a default not yet initialized

---
 include/fast_ber/ber_types/Default.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index bb4239e..847177f 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -50,8 +50,8 @@ struct Default
     DecodeResult decode(BerView input) noexcept;
 
   private:
+    const T           m_default = T(DefaultValue::get_value()); // Used by the initialization of m_item
     absl::optional<T> m_item;
-    const T           m_default = T(DefaultValue::get_value());
 };
 
 template <typename T, typename DefaultValue>
-- 
2.43.0


From 888b54ba4164b4d1fdef5be758800250f9eb4c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 73/87] fix: a failed compilation left empty or incomplete
 output files, and failures to write them were not reported

---
 src/compiler_main/CompilerMain.cpp | 50 +++++++++++++++++-------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 6cd39ff..3d01d84 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -210,6 +210,25 @@ std::string create_output_file(const Asn1Tree& tree, const std::string& fwd_file
     return output;
 }
 
+bool write_file(const std::string& filename, const std::string& contents)
+{
+    std::ofstream file(filename);
+    if (!file.good())
+    {
+        std::cerr << "Could not create output file: " + filename + "\n";
+        return false;
+    }
+
+    file << contents;
+    file.close();
+    if (!file.good())
+    {
+        std::cerr << "Could not write output file: " + filename + "\n";
+        return false;
+    }
+    return true;
+}
+
 int main(int argc, char** argv)
 {
     if (argc < 3)
@@ -248,25 +267,6 @@ int main(int argc, char** argv)
         const std::string& fwd_filame      = std::string(argv[argc - 1]) + ".fwd.hpp";
         const std::string& detail_filame   = std::string(argv[argc - 1]) + ".detail.hpp";
 
-        std::ofstream output_file(output_filename);
-        std::ofstream fwd_output_file(fwd_filame);
-        std::ofstream detail_output_file(detail_filame);
-        if (!output_file.good())
-        {
-            std::cerr << "Could not create output file: " + output_filename + "\n";
-            return -1;
-        }
-        if (!fwd_output_file.good())
-        {
-            std::cerr << "Could not create output file: " + fwd_filame + "\n";
-            return -1;
-        }
-        if (!detail_output_file.good())
-        {
-            std::cerr << "Could not create output file: " + detail_filame + "\n";
-            return -1;
-        }
-
         resolve_parameters(context.asn1_tree);
         context.asn1_tree.modules = reorder_modules(context.asn1_tree.modules);
 
@@ -288,10 +288,16 @@ int main(int argc, char** argv)
             module.assignments = reorder_assignments(module.assignments, context.asn1_tree, module);
         }
 
-        output_file << create_output_file(context.asn1_tree, fwd_filame, detail_filame);
-        fwd_output_file << create_fwd_body(context.asn1_tree);
-        detail_output_file << create_detail_body(context.asn1_tree);
+        // Everything is created before anything is written, a failed compilation leaves no output
+        const std::string& output        = create_output_file(context.asn1_tree, fwd_filame, detail_filame);
+        const std::string& fwd_output    = create_fwd_body(context.asn1_tree);
+        const std::string& detail_output = create_detail_body(context.asn1_tree);
 
+        if (!write_file(output_filename, output) || !write_file(fwd_filame, fwd_output) ||
+            !write_file(detail_filame, detail_output))
+        {
+            return -1;
+        }
         return 0;
     }
     catch (const std::exception& e)
-- 
2.43.0


From a5fb4ec3a787fd8ed123f805419f9f965a5cdece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 74/87] fix: importing a value which is not defined generated
 invalid code

---
 src/compiler_main/CompilerMain.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 3d01d84..e82cc77 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -16,6 +16,7 @@
 #include "fast_ber/compiler/ValueAsString.hpp"
 #include "fast_ber/compiler/ValueType.hpp"
 
+#include <algorithm>
 #include <string>
 #include <unordered_map>
 
@@ -84,6 +85,19 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
     }
 }
 
+// Values may also be imported by the module they are imported from
+bool is_defined_value(const Asn1Tree& tree, const Module& module, const std::string& name)
+{
+    if (exists(tree, module, name))
+    {
+        return true;
+    }
+    return std::any_of(module.imports.begin(), module.imports.end(), [&](const Import& import) {
+        return std::count(import.imported_values.begin(), import.imported_values.end(), name) > 0 &&
+               is_defined_value(tree, find_module(tree, import.module_reference), name);
+    });
+}
+
 std::string create_imports(const Asn1Tree& tree, const Module& module)
 {
 
@@ -93,6 +107,11 @@ std::string create_imports(const Asn1Tree& tree, const Module& module)
     {
         for (const auto& import_name : import.imported_values)
         {
+            if (!is_defined_value(tree, find_module(tree, import.module_reference), import_name))
+            {
+                throw std::runtime_error("Reference to undefined value: " + import.module_reference + "." +
+                                         import_name);
+            }
 
             log_debug(tree, "Value import " + module.module_reference + "." + import_name + " <- " +
                                 import.module_reference + "." + import_name);
-- 
2.43.0


From b2fec4332bdf5c200e4f3f4c873a01fe38bc3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 75/87] fix: parameterized types and imported values of the
 same name were not refused

---
 src/compiler/ReorderAssignments.cpp            | 18 ++++++++++++++++++
 .../fast_ber/compiler/ReorderAssignments.hpp   |  1 +
 src/compiler_main/CompilerMain.cpp             |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 4d5eb96..f13ca3b 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -40,6 +40,24 @@ void check_duplicated_names(const std::vector<Assignment>& assignments, const st
     }
 }
 
+// Includes the names of parameterized types and of imports
+void check_duplicated_names(const Module& module)
+{
+    std::vector<Assignment> names = module.assignments;
+    for (const Import& import : module.imports)
+    {
+        for (const std::string& name : import.imported_types)
+        {
+            names.push_back(Assignment{name, TypeAssignment{}, {}, {}});
+        }
+        for (const std::string& name : import.imported_values)
+        {
+            names.push_back(Assignment{name, ValueAssignment{}, {}, {}});
+        }
+    }
+    check_duplicated_names(names, module.module_reference);
+}
+
 // Calls the functions for each collection, and for each choice, including those which are nested
 template <typename CollectionFunction, typename ChoiceFunction>
 static void visit_constructed_types(Type& type, const CollectionFunction& on_collection,
diff --git a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
index e989ff0..abc322b 100644
--- a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
+++ b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
@@ -4,6 +4,7 @@
 
 std::string to_string(const std::vector<Assignment>& assignments);
 void        check_duplicated_names(const std::vector<Assignment>& assignments, const std::string& module_name);
+void        check_duplicated_names(const Module& module);
 
 void resolve_components_of(Asn1Tree& tree);
 
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index e82cc77..1f87d55 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -286,6 +286,11 @@ int main(int argc, char** argv)
         const std::string& fwd_filame      = std::string(argv[argc - 1]) + ".fwd.hpp";
         const std::string& detail_filame   = std::string(argv[argc - 1]) + ".detail.hpp";
 
+        for (const Module& module : context.asn1_tree.modules)
+        {
+            check_duplicated_names(module);
+        }
+
         resolve_parameters(context.asn1_tree);
         context.asn1_tree.modules = reorder_modules(context.asn1_tree.modules);
 
-- 
2.43.0


From ae60d7942ad6739c3125e2f4a8141cb5e1e0de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 76/87] fix: a tag written as UNIVERSAL was not seen to be that
 of a built-in type

---
 src/compiler/include/fast_ber/compiler/CompilerTypes.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 57238b6..eb4135f 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -631,12 +631,9 @@ struct Identifier
     template <typename H>
     friend H AbslHashValue(H h, const Identifier& i)
     {
-        return H::combine(std::move(h), i.class_, i.tag_number, i.universal);
-    }
-    bool operator==(const Identifier& rhs) const
-    {
-        return class_ == rhs.class_ && tag_number == rhs.tag_number && universal == rhs.universal;
+        return H::combine(std::move(h), i.class_, i.tag_number);
     }
+    bool operator==(const Identifier& rhs) const { return class_ == rhs.class_ && tag_number == rhs.tag_number; }
 };
 
 struct TaggingInfo
-- 
2.43.0


From 2899d6aca5e5f7eb8cad27b0c444707cf1e3931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 77/87] fix: named numbers and named bits which are duplicated
 or refer to undefined values were not refused

---
 src/compiler/TypeAsString.cpp                     |  2 ++
 src/compiler/ValueAsString.cpp                    | 15 +++++++++++++++
 src/compiler/asn_compiler.yacc                    | 12 +++++++++---
 .../include/fast_ber/compiler/CompilerTypes.hpp   |  1 +
 .../include/fast_ber/compiler/ValueAsString.hpp   |  3 +++
 5 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 73c88c1..34b97dc 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -135,6 +135,7 @@ std::string type_as_string(const AnyType& type, const Module& module, const Asn1
 std::string type_as_string(const BitStringType& type, const Module& module, const Asn1Tree& tree, const std::string&,
                            const std::string& identifier_override)
 {
+    check_named_numbers(type.named_bits, module, tree);
     return "::fast_ber::BitString" + identifier_template_params(type, module, tree, identifier_override);
 }
 std::string type_as_string(const BooleanType& type, const Module& module, const Asn1Tree& tree, const std::string&,
@@ -199,6 +200,7 @@ std::string type_as_string(const InstanceOfType& type, const Module& module, con
 std::string type_as_string(const IntegerType& type, const Module& module, const Asn1Tree& tree, const std::string&,
                            const std::string& identifier_override)
 {
+    check_named_numbers(type.named_numbers, module, tree);
     return "::fast_ber::Integer" + identifier_template_params(type, module, tree, identifier_override);
 }
 std::string type_as_string(const IRIType& type, const Module& module, const Asn1Tree& tree, const std::string&,
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index d90af88..6006c43 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -6,6 +6,7 @@
 #include <cstdio>
 #include <iostream>
 #include <limits>
+#include <set>
 
 std::string cpp_integer(int64_t integer)
 {
@@ -216,6 +217,20 @@ static int64_t integer_value(const std::string& reference, const Module& module,
     return absl::get<int64_t>(value.value_selection);
 }
 
+void check_named_numbers(const std::vector<NamedNumber>& named_numbers, const Module& module, const Asn1Tree& tree)
+{
+    std::set<std::string> names;
+    std::set<int64_t>     numbers;
+    for (const NamedNumber& named : named_numbers)
+    {
+        const int64_t number = named.reference.empty() ? named.number : integer_value(named.reference, module, tree);
+        if (!names.insert(named.name).second || !numbers.insert(number).second)
+        {
+            throw std::runtime_error("Duplicated named number: " + named.name);
+        }
+    }
+}
+
 static std::vector<int64_t> oid_components(const Value& oid, const Module& module, const Asn1Tree& tree, int depth = 0)
 {
     if (depth > 100)
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 314a1f9..f3cf2b2 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -290,6 +290,8 @@
 %type<NamedType>         NamedType;
 %type<NamedNumber>       NamedNumber;
 %type<std::vector<NamedNumber>> NamedNumberList;
+%type<NamedNumber>       NamedBit;
+%type<std::vector<NamedNumber>> NamedBitList;
 %type<ComponentType>     ComponentType;
 %type<ComponentTypeList> ComponentTypeList;
 %type<Collection>        ComponentTypeLists;
@@ -1198,15 +1200,19 @@ BitStringType:
     BIT STRING
     { $$ = BitStringType{}; }
 |   BIT STRING "{" NamedBitList "}"
-    { $$ = BitStringType{}; }
+    { $$ = BitStringType{$4}; }
 
 NamedBitList:
     NamedBit
-|   NamedBitList "," NamedBit;
+    { $$ = {$1}; }
+|   NamedBitList "," NamedBit
+    { $$ = $1; $$.push_back($3); }
 
 NamedBit:
     identifier "(" number ")"
-|   identifier "(" DefinedValue ")";
+    { $$ = NamedNumber{ $1, $3, {} }; }
+|   identifier "(" DefinedValue ")"
+    { $$ = NamedNumber{ $1, 0, $3.reference }; }
 
 BitStringValue:
     bstring
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index eb4135f..42b2b78 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -67,6 +67,7 @@ struct AnyType
 };
 struct BitStringType
 {
+    std::vector<NamedNumber> named_bits;
 };
 struct BooleanType
 {
diff --git a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
index 4bba44a..ae33618 100644
--- a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
@@ -10,4 +10,7 @@ bool is_item_of_type(const Type& type, const std::string& reference);
 // The number of each item
 std::vector<int64_t> enumeration_numbers(const EnumeratedType& enumerated, const Module& module, const Asn1Tree& tree);
 
+// Throws unless the names and numbers are distinct and defined
+void check_named_numbers(const std::vector<NamedNumber>& named_numbers, const Module& module, const Asn1Tree& tree);
+
 std::string value_as_string(const NamedType& type, const Value& value, const Module& module, const Asn1Tree& tree);
-- 
2.43.0


From 03a65e73f9a6e46ee985e79a0201072fb22ebb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 78/87] fix: undefined types in parameterized types and
 arguments which are not used were not refused

---
 src/compiler/Parameters.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/compiler/Parameters.cpp b/src/compiler/Parameters.cpp
index 7d5fb94..7e83714 100644
--- a/src/compiler/Parameters.cpp
+++ b/src/compiler/Parameters.cpp
@@ -1,12 +1,42 @@
 #include "fast_ber/compiler/Parameters.hpp"
+#include "fast_ber/compiler/Dependencies.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 
+#include <algorithm>
+#include <cctype>
+
 static bool is_dummy_reference(const Type& type, const ParameterTypes& parameters)
 {
     return is_defined(type) && !absl::get<DefinedType>(type).module_reference &&
            parameters.count(absl::get<DefinedType>(type).type_reference) > 0;
 }
 
+// Types which end up unused would not be seen to be undefined afterwards
+static void check_defined(const Asn1Tree& tree, const Module& module, const Type& type,
+                          const std::vector<Parameter>& parameters)
+{
+    for (const Dependency& dependency : dependencies(type))
+    {
+        const std::string& name     = dependency.name;
+        const bool         is_dummy = std::any_of(parameters.begin(), parameters.end(),
+                                                  [&](const Parameter& parameter) { return parameter.reference == name; });
+        if (is_dummy || std::islower(static_cast<unsigned char>(name.front())))
+        {
+            continue;
+        }
+
+        const Module& defining = dependency.module_reference ? find_module(tree, *dependency.module_reference) : module;
+        const bool    is_imported =
+            std::any_of(defining.imports.begin(), defining.imports.end(), [&](const Import& import) {
+                return std::count(import.imported_types.begin(), import.imported_types.end(), name) > 0;
+            });
+        if (!is_imported && !exists(tree, defining, name))
+        {
+            throw std::runtime_error("Reference to undefined type: " + name);
+        }
+    }
+}
+
 void resolve_parameterized(const Asn1Tree& tree, const Module& module, ChoiceType& choice,
                            const ParameterTypes& parameters)
 {
@@ -195,6 +225,7 @@ void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, Type&
             std::unordered_map<std::string, Type> new_parameters;
             for (size_t i = 0; i < parameter_template.parameters.size(); i++)
             {
+                check_defined(tree, module, defined.parameters[i], {});
                 new_parameters[parameter_template.parameters[i].reference] = defined.parameters[i];
             }
 
@@ -233,6 +264,10 @@ void resolve_parameters(Asn1Tree& tree)
                 {
                     parameterized_to_concrete(tree, module, type(assignment));
                 }
+                else
+                {
+                    check_defined(tree, module, type(assignment), assignment.parameters);
+                }
             }
         }
     }
-- 
2.43.0


From 878f680464c5bf4fa8380a113d77a2ace70a19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 79/87] fix: the lexer read past the end of files which end in
 a comment

---
 src/compiler/asn_compiler.yacc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index f3cf2b2..f4760ee 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1942,11 +1942,11 @@ re2c:define:YYCURSOR = "context_.cursor";
 "WITH"                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
 
 // Comments
-"--" ([\-]?[^\r\n\-])* "--"
+"--" ([\-]?[^\r\n\-\000])* "--"
                         { context_.location.columns(context_.cursor - start); return yylex(context_); }
-"--" ([\-]?[^\r\n\-])*[\-]?
+"--" ([\-]?[^\r\n\-\000])*[\-]?
                         { context_.location.columns(context_.cursor - start); return yylex(context_); }
-"/*" ([^\*]|([\*]+[^\*\/]))*[\*]+ "/"
+"/*" ([^\*\000]|([\*]+[^\*\/\000]))*[\*]+ "/"
                         { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
 
 // Identifiers
-- 
2.43.0


From fdce3f999722d440da087d40c71ed783819908f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 80/87] fix: a value of a SET OF an unnamed type dereferenced a
 null pointer

---
 src/compiler/ValueType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/ValueType.cpp b/src/compiler/ValueType.cpp
index 7ebd0ac..c341232 100644
--- a/src/compiler/ValueType.cpp
+++ b/src/compiler/ValueType.cpp
@@ -156,7 +156,7 @@ std::string value_type(const SetOfType& set, const Module& module, const Asn1Tre
 {
     std::string name = set.has_name ? set.named_type->name : "";
     const Type& type = set.has_name ? set.named_type->type : *set.type;
-    std::string res  = "SetOf<" + value_type(type, module, tree, set.named_type->name, {});
+    std::string res  = "SetOf<" + value_type(type, module, tree, name, {});
     if (identifier_override.empty())
     {
         res += ", ExplicitId<UniversalTag::sequence>";
-- 
2.43.0


From 9a107066d54b36177e24eb343568dff92c9bf370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 81/87] fix: COMPONENTS OF was resolved once per path, which
 took exponential time

---
 src/compiler/ReorderAssignments.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index f13ca3b..a62529a 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -119,11 +119,10 @@ static void visit_constructed_types(Module& module, const CollectionFunction& on
     }
 }
 
-// The components of a SEQUENCE or SET which is inlined with COMPONENTS OF
-static const Collection& referenced_collection(const Asn1Tree& tree, const Module& module, const Type& type,
-                                               int depth = 0)
+// The components of a SEQUENCE or SET which is inlined with COMPONENTS OF, and the module which defines it
+static Collection& referenced_collection(Asn1Tree& tree, Module*& module, Type& type, int depth = 0)
 {
-    const Type& untagged = without_tags(type);
+    Type& untagged = without_tags(type);
     if (is_sequence(untagged))
     {
         return absl::get<SequenceType>(absl::get<BuiltinType>(untagged));
@@ -135,18 +134,18 @@ static const Collection& referenced_collection(const Asn1Tree& tree, const Modul
     else if (is_defined(untagged) && depth < 100)
     {
         const DefinedType& defined = absl::get<DefinedType>(untagged);
-        const Module&      owner   = find_module(tree, module, defined);
-        const Assignment&  inlined = resolve(tree, owner, defined.type_reference);
+        module                     = &find_module(tree, *module, defined);
+        Assignment& inlined        = resolve(tree, *module, defined.type_reference);
         if (is_type(inlined))
         {
-            return referenced_collection(tree, owner, ::type(inlined), depth + 1);
+            return referenced_collection(tree, module, ::type(inlined), depth + 1);
         }
     }
     throw std::runtime_error("COMPONENTS OF a type which is not a SEQUENCE or SET in module " +
-                             module.module_reference);
+                             module->module_reference);
 }
 
-static void resolve_components_of(const Asn1Tree& tree, const Module& module, Collection& collection, int depth)
+static void resolve_components_of(Asn1Tree& tree, Module& module, Collection& collection, int depth)
 {
     if (depth > 100)
     {
@@ -154,7 +153,7 @@ static void resolve_components_of(const Asn1Tree& tree, const Module& module, Co
     }
 
     ComponentTypeList components;
-    for (const ComponentType& component : collection.components)
+    for (ComponentType& component : collection.components)
     {
         if (!component.components_of)
         {
@@ -162,9 +161,11 @@ static void resolve_components_of(const Asn1Tree& tree, const Module& module, Co
             continue;
         }
 
-        Collection inherited = referenced_collection(tree, module, *component.components_of);
-        resolve_components_of(tree, module, inherited, depth + 1);
-        for (ComponentType& inlined : inherited.components)
+        // Resolved in place, so that it is done only once
+        Module*     owner     = &module;
+        Collection& inherited = referenced_collection(tree, owner, *component.components_of);
+        resolve_components_of(tree, *owner, inherited, depth + 1);
+        for (ComponentType inlined : inherited.components)
         {
             if (!inlined.is_extension)
             {
-- 
2.43.0


From 6dcc86aded2c0015af0ad7a3ae547716958605a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 82/87] fix: object identifiers made of others took exponential
 time, and the last number of an enumeration overflowed

---
 src/compiler/ValueAsString.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 6006c43..1de9890 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -269,6 +269,12 @@ static std::vector<int64_t> oid_components(const Value& oid, const Module& modul
             {
                 result.push_back(integer_value(*component.name, module, tree));
             }
+            else if (!result.empty())
+            {
+                throw std::runtime_error("Only the first component of an object identifier may be an object "
+                                         "identifier: " +
+                                         *component.name);
+            }
             else
             {
                 const std::vector<int64_t>& others =
@@ -303,7 +309,8 @@ std::vector<int64_t> enumeration_numbers(const EnumeratedType& enumerated, const
     }
 
     // X.680 Clause 20.3 and 20.6: Items without a number get the next one which is not used
-    int64_t next = 0;
+    int64_t next         = 0;
+    bool    is_exhausted = false;
     for (std::size_t i = 0; i < numbers.size(); i++)
     {
         if (i == enumerated.root_size)
@@ -312,15 +319,21 @@ std::vector<int64_t> enumeration_numbers(const EnumeratedType& enumerated, const
         }
         if (!enumerated.enum_values[i].value)
         {
+            if (is_exhausted)
+            {
+                throw std::runtime_error("There is no number left for enumeration item: " +
+                                         enumerated.enum_values[i].name);
+            }
             while (std::count(used.begin(), used.end(), next) > 0)
             {
                 next++;
             }
             numbers[i] = next;
         }
-        if (i >= enumerated.root_size)
+        if (i >= enumerated.root_size && numbers[i] >= next)
         {
-            next = std::max(next, numbers[i] + 1);
+            is_exhausted = numbers[i] == std::numeric_limits<int64_t>::max();
+            next         = is_exhausted ? numbers[i] : numbers[i] + 1;
         }
         used.push_back(numbers[i]);
     }
-- 
2.43.0


From 618e00097d07c8dddd9b2ac05ec0735fe247d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 83/87] fix: COMPONENTS OF the same type twice doubled the
 components at every level before it was refused

---
 src/compiler/ReorderAssignments.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index a62529a..738aa41 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -152,7 +152,8 @@ static void resolve_components_of(Asn1Tree& tree, Module& module, Collection& co
         throw std::runtime_error("Circular COMPONENTS OF in module " + module.module_reference);
     }
 
-    ComponentTypeList components;
+    ComponentTypeList               components;
+    std::unordered_set<std::string> inherited_names;
     for (ComponentType& component : collection.components)
     {
         if (!component.components_of)
@@ -169,6 +170,10 @@ static void resolve_components_of(Asn1Tree& tree, Module& module, Collection& co
         {
             if (!inlined.is_extension)
             {
+                if (!inherited_names.insert(inlined.named_type.name).second)
+                {
+                    throw std::runtime_error("Component " + inlined.named_type.name + " is inherited more than once");
+                }
                 inlined.is_extension = component.is_extension;
                 components.push_back(inlined);
             }
-- 
2.43.0


From 8e0e3463f2a52bdd8d5c69ed689bec5cf6bdf27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:39 +0000
Subject: [PATCH 84/87] fix: long runs of white space or comments exhausted the
 stack of the compiler

---
 src/compiler/asn_compiler.yacc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index f4760ee..636de05 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1838,6 +1838,9 @@ namespace yy {
 
     asn1_parser::symbol_type yylex(Context& context_)
     {
+        // Comments and white space are skipped, there may be any number of them
+        for (;;)
+        {
         const char* start = context_.cursor;
         const char* YYMARKER = nullptr;
         context_.location.step();
@@ -1943,11 +1946,11 @@ re2c:define:YYCURSOR = "context_.cursor";
 
 // Comments
 "--" ([\-]?[^\r\n\-\000])* "--"
-                        { context_.location.columns(context_.cursor - start); return yylex(context_); }
+                        { context_.location.columns(context_.cursor - start); continue; }
 "--" ([\-]?[^\r\n\-\000])*[\-]?
-                        { context_.location.columns(context_.cursor - start); return yylex(context_); }
+                        { context_.location.columns(context_.cursor - start); continue; }
 "/*" ([^\*\000]|([\*]+[^\*\/\000]))*[\*]+ "/"
-                        { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
+                        { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
 
 // Identifiers
 [0-9]+'\.'[0-9]+        { context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
@@ -1968,8 +1971,8 @@ re2c:define:YYCURSOR = "context_.cursor";
 "\000"                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
 
 // White space
-"\r\n" | "\n"           { context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-[\t\v\b\f ]             { context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
+"\r\n" | "\n"           { context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
+[\t\v\b\f ]             { context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
 
 // Symbols
 "::="                   { context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
@@ -1991,7 +1994,8 @@ re2c:define:YYCURSOR = "context_.cursor";
 "<"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
 "^"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
 "@"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-.                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
+.                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
 %}
+        }
     }
 }
-- 
2.43.0


From 17d6cd05976ef853e25f4a25d00d8d1a34b3c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:57 +0000
Subject: [PATCH 85/87] fix: resolve COMPONENTS OF within the types of
 inherited components

A component taken over by COMPONENTS OF was copied before the COMPONENTS OF
nested in its own type had been resolved, if its definition had not been
visited yet. The compiler then aborted while it generated code for the copy.
---
 src/compiler/ReorderAssignments.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 738aa41..11d3d46 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -166,6 +166,12 @@ static void resolve_components_of(Asn1Tree& tree, Module& module, Collection& co
         Module*     owner     = &module;
         Collection& inherited = referenced_collection(tree, owner, *component.components_of);
         resolve_components_of(tree, *owner, inherited, depth + 1);
+        for (ComponentType& nested : inherited.components)
+        {
+            visit_constructed_types(
+                nested.named_type.type,
+                [&](Collection& inner) { resolve_components_of(tree, *owner, inner, depth + 1); }, [](ChoiceType&) {});
+        }
         for (ComponentType inlined : inherited.components)
         {
             if (!inlined.is_extension)
-- 
2.43.0


From cfb85ec932496d3c7b088e8fff066d31062fc921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:17 +0000
Subject: [PATCH 86/87] fix: recursion through a SEQUENCE or SET defined in
 place

A component of a SEQUENCE or SET defined within another one may refer to the
type which is being defined, if it is OPTIONAL. Such a schema was refused for
having circular dependencies.
---
 src/compiler/ReorderAssignments.cpp | 96 +++++++++++------------------
 1 file changed, 37 insertions(+), 59 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 11d3d46..9f08d02 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -4,6 +4,7 @@
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
 #include "fast_ber/compiler/ValueAsString.hpp"
+#include <functional>
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
@@ -393,36 +394,16 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         return is_choice(resolved_reference(type)) || is_collection_of(type);
     };
 
-    if (is_type(assignment) && (is_choice(assigned_type) || is_set_of(assigned_type) || is_sequence_of(assigned_type)))
-    {
-        // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-        if (is_circular({Dependency{name, module.module_reference}}))
-        {
-            // A tagged reference to a collection contains its definition
-            for (const Dependency& dependency : std::vector<Dependency>(assignment.depends_on))
-            {
-                if (is_defined_here(dependency) && visited_names.count(dependency.name) == 0 &&
-                    is_collection_of(DefinedType{module.module_reference, dependency.name, {}}))
-                {
-                    resolve_all({dependency});
-                }
-            }
-
-            // As type is now dynamic it doesn't have any dependencies
-            assignment_infos[name].depends_on = {};
-
-            set_dynamic_storage(assigned_type);
-            std::cout << "Type " << name << " has circular dependencies, setting dynamic storage policy" << std::endl;
-        }
-        else
+    auto find_collection = [](Type& type) -> Collection* {
+        if (is_sequence(type))
         {
-            resolve_all(assignment.depends_on);
+            return &absl::get<SequenceType>(absl::get<BuiltinType>(type));
         }
-    }
-    else if (is_type(assignment) && is_sequence(assigned_type))
-    {
-        SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(assigned_type));
-        for (ComponentType& component : sequence.components)
+        return is_set(type) ? &absl::get<SetType>(absl::get<BuiltinType>(type)) : nullptr;
+    };
+
+    std::function<void(Collection&)> resolve_components = [&](Collection& collection) {
+        for (ComponentType& component : collection.components)
         {
             if (component.default_value)
             {
@@ -443,6 +424,11 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             {
                 set_dynamic_storage(without_tags(component.named_type.type));
             }
+            else if (Collection* nested = find_collection(without_tags(component.named_type.type)))
+            {
+                // Defined in place, its components may be circular themselves
+                resolve_components(*nested);
+            }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
             else if (component.is_optional && !has_dynamic_definition(without_tags(component.named_type.type)) &&
                      is_circular(depends_on(component.named_type.type)))
@@ -457,45 +443,37 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                 resolve_all(depends_on(component.named_type.type));
             }
         }
-    }
-    else if (is_type(assignment) && is_set(assigned_type))
+    };
+
+    if (is_type(assignment) && (is_choice(assigned_type) || is_set_of(assigned_type) || is_sequence_of(assigned_type)))
     {
-        SetType& sequence = absl::get<SetType>(absl::get<BuiltinType>(assigned_type));
-        for (ComponentType& component : sequence.components)
+        // If circular dependancy, use dynamic storage. Else, resolve and use static storage
+        if (is_circular({Dependency{name, module.module_reference}}))
         {
-            if (component.default_value)
+            // A tagged reference to a collection contains its definition
+            for (const Dependency& dependency : std::vector<Dependency>(assignment.depends_on))
             {
-                resolve_all(depends_on(component.named_type.type));
-
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_item_of_type(concrete_type(component.named_type, module, tree).type,
-                                     absl::get<DefinedValue>(component.default_value->value_selection).reference))
+                if (is_defined_here(dependency) && visited_names.count(dependency.name) == 0 &&
+                    is_collection_of(DefinedType{module.module_reference, dependency.name, {}}))
                 {
-                    const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_all({Dependency{defined.reference, absl::nullopt, false}});
+                    resolve_all({dependency});
                 }
             }
-            else if ((is_choice(without_tags(component.named_type.type)) ||
-                      is_set_of(without_tags(component.named_type.type)) ||
-                      is_sequence_of(without_tags(component.named_type.type))) &&
-                     is_circular(depends_on(component.named_type.type)))
-            {
-                set_dynamic_storage(without_tags(component.named_type.type));
-            }
-            // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && !has_dynamic_definition(without_tags(component.named_type.type)) &&
-                     is_circular(depends_on(component.named_type.type)))
-            {
-                std::cout << "Optional member[" << component.named_type.name << "] of [" << name
-                          << "] has circular dependencies, setting dynamic storage policy" << std::endl;
 
-                component.optional_storage = StorageMode::dynamic;
-            }
-            else
-            {
-                resolve_all(depends_on(component.named_type.type));
-            }
+            // As type is now dynamic it doesn't have any dependencies
+            assignment_infos[name].depends_on = {};
+
+            set_dynamic_storage(assigned_type);
+            std::cout << "Type " << name << " has circular dependencies, setting dynamic storage policy" << std::endl;
         }
+        else
+        {
+            resolve_all(assignment.depends_on);
+        }
+    }
+    else if (is_type(assignment) && find_collection(assigned_type))
+    {
+        resolve_components(*find_collection(assigned_type));
     }
     else if (is_value(assignment) && absl::holds_alternative<DefinedValue>(value(assignment).value.value_selection) &&
              is_item_of_type(concrete_type(NamedType{name, value(assignment).type}, module, tree).type,
-- 
2.43.0


From 1a88ae6eb0638e1404816140e779b6e45b5ee9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 87/87] fix: CHOICEs named args, u or exactlyOnce did not
 compile

---
 src/compiler/CompilerTypes.cpp  |  1 +
 src/compiler/GenerateChoice.cpp | 36 ++++++++++++++++-----------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 3aeb797..7d2139a 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -148,6 +148,7 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "EmbeddedPDV",
     "EncodeResult",
     "Enumerated",
+    "ExactlyOnce",
     "ExplicitId",
     "External",
     "GeneralString",
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index caaced1..a5dcaab 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -83,45 +83,45 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
         block.add_line(name + "(T_&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T_&&>, T_&&>::value) : "
                               "m_storage(std::forward<T_>(t)) {}");
 
-        block.add_line("template <typename T_, typename... Args,");
+        block.add_line("template <typename T_, typename... Args_,");
         block.add_line(
-            "    typename = absl::enable_if_t<ExactlyOnce<T_>::value && std::is_constructible<T_, Args&&...>::value>>");
+            "    typename = absl::enable_if_t<ExactlyOnce<T_>::value && std::is_constructible<T_, Args_&&...>::value>>");
         block.add_line("explicit " + name +
-                       "(in_place_type_t<T_> i, Args&&... args) : m_storage(i, std::forward<Args>(args)...) {}");
+                       "(in_place_type_t<T_> i, Args_&&... args) : m_storage(i, std::forward<Args_>(args)...) {}");
 
-        block.add_line("template <typename T_, typename U, typename... Args,");
+        block.add_line("template <typename T_, typename U_, typename... Args_,");
         block.add_line("    typename = absl::enable_if_t<ExactlyOnce<T_>::value && std::is_constructible<T_, "
-                       "std::initializer_list<U>&, Args&&...>::value>>");
+                       "std::initializer_list<U_>&, Args_&&...>::value>>");
         block.add_line("explicit " + name +
-                       "(in_place_type_t<T_> ip, std::initializer_list<U> il, Args&&... args) : m_storage(ip, il, "
-                       "std::forward<Args>(args)...) {}");
+                       "(in_place_type_t<T_> ip, std::initializer_list<U_> il, Args_&&... args) : m_storage(ip, il, "
+                       "std::forward<Args_>(args)...) {}");
 
-        block.add_line("template <std::size_t i, typename... Args,");
-        block.add_line("    typename = absl::enable_if_t<std::is_constructible<ToType<i>, Args&&...>::value>>");
+        block.add_line("template <std::size_t i, typename... Args_,");
+        block.add_line("    typename = absl::enable_if_t<std::is_constructible<ToType<i>, Args_&&...>::value>>");
         block.add_line("explicit " + name +
-                       "(in_place_index_t<i> ip, Args&&... args) : m_storage(ip, std::forward<Args>(args)...) {}");
+                       "(in_place_index_t<i> ip, Args_&&... args) : m_storage(ip, std::forward<Args_>(args)...) {}");
 
         block.add_line();
 
         // Emplace
-        block.add_line("template <typename T_, typename... Args,");
+        block.add_line("template <typename T_, typename... Args_,");
         block.add_line(
-            "    typename = absl::enable_if_t<std::is_constructible<T_, Args...>::value && ExactlyOnce<T_>::value>>");
-        block.add_line("T_& emplace(Args&&... args)");
+            "    typename = absl::enable_if_t<std::is_constructible<T_, Args_...>::value && ExactlyOnce<T_>::value>>");
+        block.add_line("T_& emplace(Args_&&... args)");
         {
             CodeScope scope2(block);
             {
-                block.add_line("return m_storage.emplace<T_>(std::forward<Args>(args)...);");
+                block.add_line("return m_storage.emplace<T_>(std::forward<Args_>(args)...);");
             }
         }
-        block.add_line("template <std::size_t i, typename... Args>");
-        block.add_line("    absl::enable_if_t<std::is_constructible<ToType<i>, Args...>::value,");
+        block.add_line("template <std::size_t i, typename... Args_>");
+        block.add_line("    absl::enable_if_t<std::is_constructible<ToType<i>, Args_...>::value,");
         block.add_line("    ToType<i>&>");
-        block.add_line("emplace(Args&&... args)");
+        block.add_line("emplace(Args_&&... args)");
         {
             CodeScope scope2(block);
             {
-                block.add_line("return m_storage.emplace<i>(std::forward<Args>(args)...);");
+                block.add_line("return m_storage.emplace<i>(std::forward<Args_>(args)...);");
             }
         }
         block.add_line();
-- 
2.43.0

