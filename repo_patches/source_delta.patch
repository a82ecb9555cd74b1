From 9df7dd3cf6e7c1f7567cd6fe9b91c084f0daa558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 01/38] fix: read the element's own data when gathering bounds

The bounds pass ignored the offset of the element in the input vertex, so every element but the
first of an input stream got bounds (and Bounds transforms) computed from other elements' bytes,
possibly reading past the end of the vertex data.
---
 lib/src/Converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 75f4e0a..8120aed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -688,7 +688,8 @@ bool Converter::convert()
 				}
 
 				VertexValue value;
-				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride();
+				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
+					element.offset;
 				value.fromData(stream.vertexData + offset, element.layout, element.type);
 				value.expandBounds(elementRef.minVal, elementRef.maxVal);
 			}
-- 
2.43.0


From 0cadabc2e2ea5ab55c756515210c408f4d75c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 02/38] fix: don't discard bounds when encountering NaN

A NaN replaced the bounds gathered so far, and the next value then replaced the NaN, so the bounds
only covered the values following the last NaN.
---
 lib/include/VFC/VertexValue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index cca79cc..7b496db 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -117,8 +117,9 @@ public:
 	{
 		for (unsigned int i = 0; i < count; ++i)
 		{
-			minVal.m_values[i] = std::min(m_values[i], minVal.m_values[i]);
-			maxVal.m_values[i] = std::max(m_values[i], maxVal.m_values[i]);
+			// The order of the parameters is important to ignore NaN values.
+			minVal.m_values[i] = std::min(minVal.m_values[i], m_values[i]);
+			maxVal.m_values[i] = std::max(maxVal.m_values[i], m_values[i]);
 		}
 	}
 
-- 
2.43.0


From 37d444cc24b765d7fcb99644d97f8f55b87092d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 03/38] fix: remove only the duplicate when copying identical
 vertices at a split

When the vertices carried over to a new index buffer were identical, the array of vertex streams
was resized rather than the vertices within each stream.
---
 lib/src/Converter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8120aed..8f5683e 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -233,8 +233,10 @@ std::uint32_t addVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 	{
 		std::size_t stride = vertexFormat[i].stride();
 		std::size_t offset = index*stride;
-		vertices[i].insert(vertices[i].end(), vertices[i].begin() + offset,
-			vertices[i].begin() + offset + stride);
+		// Inserting a range of a vector into itself is undefined.
+		std::size_t prevSize = vertices[i].size();
+		vertices[i].resize(prevSize + stride);
+		std::memcpy(vertices[i].data() + prevSize, vertices[i].data() + offset, stride);
 	}
 	VertexRef ref(vertices, vertexFormat, newIndex);
 	auto insertPair = vertexSet.insert(ref);
@@ -243,7 +245,7 @@ std::uint32_t addVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 		assert(insertPair.first->index < ref.index);
 		// Remove the added vertex data.
 		for (std::size_t i = 0; i < vertices.size(); ++i)
-			vertices.resize(vertices[i].size() - vertexFormat[i].stride());
+			vertices[i].resize(vertices[i].size() - vertexFormat[i].stride());
 		return insertPair.first->index;
 	}
 
-- 
2.43.0


From 9d1f9a822cc9c329c91f0d302c39438f7f30799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 04/38] fix: continue triangle strips with the right triangles
 after a split

Depending on the parity, the last two vertices were swapped when continuing a triangle strip in a
new index buffer. This made the second triangle of the new buffer use the wrong vertices.
---
 lib/src/Converter.cpp | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8f5683e..a39a73c 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -352,36 +352,16 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 			break;
 		case PrimitiveType::TriangleStrip:
 		{
+			// Copy the last two vertices in their original order. If they were swapped only the first
+			// triangle would be continued, with the following triangles using the wrong vertices.
 			std::uint32_t firstIndex = lastRestartIndex + 1;
-			std::uint32_t stripIndexCount = indexCount - firstIndex + 1;
-			if (stripIndexCount <= 2)
+			if (indexCount - firstIndex > 2)
+				firstIndex = indexCount - 2;
+			for (std::uint32_t k = firstIndex; k < indexCount; ++k)
 			{
-				for (std::uint32_t k = firstIndex; k < indexCount; ++k)
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, k, prevBaseVertex);
-					++curIndexCount;
-				}
-			}
-			else
-			{
-				// Reverse every other primitive.
-				std::uint32_t primitiveCount = stripIndexCount - 2;
-				if (primitiveCount & 1)
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-				}
-				else
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-				}
-				curIndexCount += 2;
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, k, prevBaseVertex);
+				++curIndexCount;
 			}
 			break;
 		}
-- 
2.43.0


From 2774e2d4e3b0fb2644f507d8e359723e01217242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 05/38] fix: don't output the primitive restart value for a
 vertex

The maximum index value may be set to the primitive restart value. For primitive types with
primitive restarts, this allowed a vertex to be output with an index that cuts the primitive.
---
 lib/src/Converter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index a39a73c..0bc655e 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -695,6 +695,11 @@ bool Converter::convert()
 		indexData = &m_indexData.back();
 	}
 
+	// Never use the primitive restart value for a vertex when it has a special meaning.
+	std::uint32_t maxIndexValue = m_maxIndexValue;
+	if (isPrimitiveRestart(maxIndexValue, primitiveRestartIndexValue(m_indexType), m_primitiveType))
+		--maxIndexValue;
+
 	unsigned int indexStride = primitiveIndexStride(m_primitiveType, m_patchPoints);
 	for (std::uint32_t i = 0; i < m_indexCount; i += indexStride)
 	{
@@ -702,7 +707,7 @@ bool Converter::convert()
 		auto vertexCount =
 			static_cast<std::uint32_t>(m_vertices[0].size()/m_vertexFormat[0].stride());
 		if (m_indexType != IndexType::NoIndices &&
-			vertexCount + indexStride - 1 - indexData->baseVertex > m_maxIndexValue)
+			vertexCount + indexStride - 1 - indexData->baseVertex > maxIndexValue)
 		{
 			std::int32_t baseVertex = vertexCount;
 			m_indexData.push_back(IndexData{reinterpret_cast<void*>(m_indices.size()),
@@ -809,7 +814,7 @@ bool Converter::convert()
 				std::uint32_t vertexIndex =
 					addVertex(m_vertices, m_vertexFormat, vertexData, vertexSet);
 				std::uint32_t indexValue = vertexIndex - indexData->baseVertex;
-				assert(indexValue <= m_maxIndexValue);
+				assert(indexValue <= maxIndexValue);
 				addIndex(m_indices, m_indexType, sizeofIndex, indexValue);
 				++indexData->count;
 			}
-- 
2.43.0


From 22345e85967506feab11220ad374c20f18343d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 06/38] fix: check for mismatched counts after adding an empty
 vertex stream

Once a vertex stream with no indices was added, a stream of any other size could be added. The
conversion then read past the end of the empty stream's index data. Also don't remember the index
count of a stream that failed to be added.
---
 lib/src/Converter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 0bc655e..57d67d1 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -498,7 +498,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	}
 
 	std::uint32_t finalIndexCount = hasIndices ? indexCount : vertexCount;
-	if (m_indexCount > 0 && m_indexCount != finalIndexCount)
+	if ((m_indexCount > 0 || !m_vertexStreams.empty()) && m_indexCount != finalIndexCount)
 	{
 		if (hasIndices)
 			logError("Mismatch between number of indices for vertex streams.");
@@ -540,10 +540,11 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 		}
 	}
 
-	m_indexCount = finalIndexCount;
 	if (duplicateElements)
 		return false;
-	else if (!hasElements)
+
+	m_indexCount = finalIndexCount;
+	if (!hasElements)
 		return true;
 
 	auto streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());
-- 
2.43.0


From 96de14b1cbf3d0046dfbe82e4236df1ca5ae8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 07/38] fix: don't allow adding a vertex stream to an invalid
 converter

With PatchList primitives and no patch points this asserted or divided by zero.
---
 lib/src/Converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 57d67d1..6db8243 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -490,6 +490,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	std::uint32_t vertexCount, IndexType indexType, const void* indexData,
 	std::uint32_t indexCount)
 {
+	if (!isValid())
+	{
+		logError("Converter is invalid.");
+		return false;
+	}
+
 	bool hasIndices = indexType != IndexType::NoIndices;
 	if (!vertexData || (hasIndices && !indexData))
 	{
-- 
2.43.0


From b8235d463a9c534f9960fd5e868830e34bcc2628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 08/38] fix: saturate 64-bit integers and write NaN as 0 for
 integer types

The limits of 64-bit integers were rounded when converted to double, so values at or past the
maximum overflowed, wrapping to 0 or the minimum. NaN was converted to an arbitrary integer.
---
 lib/src/VertexValue.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3d9fd59..9f7e417 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -164,6 +164,10 @@ inline typename std::make_signed<T>::type makeSigned(T value, T signBit)
 template <typename T>
 inline T packUNorm(double value, T maxValue)
 {
+	// Converting NaN to an integer is undefined.
+	if (std::isnan(value))
+		return 0;
+
 	return static_cast<T>(std::round(glm::clamp(value, 0.0, 1.0)*static_cast<double>(maxValue)));
 }
 
@@ -190,6 +194,10 @@ template <typename T, typename U, typename V>
 inline T packSNorm(double value, U absMinValue, V range)
 {
 	using UnsignedT = typename std::make_unsigned<T>::type;
+	// Converting NaN to an integer is undefined.
+	if (std::isnan(value))
+		value = 0.0;
+
 	double unormVal = glm::clamp(value, -1.0, 1.0)*0.5 + 0.5;
 	auto baseRange = static_cast<UnsignedT>(std::round(unormVal*static_cast<double>(range)));
 	return static_cast<T>(baseRange - absMinValue);
@@ -220,8 +228,18 @@ inline void packSNormValues(T* data, const double* values, unsigned int count)
 template <typename T>
 inline T packInteger(double value, T minVal, T maxVal)
 {
-	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
-		static_cast<double>(maxVal))));
+	// Converting NaN to an integer is undefined.
+	if (std::isnan(value))
+		return 0;
+
+	// The limits of 64-bit integers may be rounded up when converted to double, in which case
+	// clamping to them still results in a value that's out of range.
+	value = std::round(value);
+	if (value <= static_cast<double>(minVal))
+		return minVal;
+	else if (value >= static_cast<double>(maxVal))
+		return maxVal;
+	return static_cast<T>(value);
 }
 
 inline void packIntegers(std::uint8_t* data, const double* values, unsigned int count)
-- 
2.43.0


From e84effc981b4703f7f288b9dcc453cea4794f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 09/38] fix: support the full range of Z10Y11X11_UFloat

The glm functions only support normalized values: values below 2^-14 or above the maximum wrapped
around to unrelated values, denormalized values and infinity were decoded to the wrong value, and
values were truncated rather than rounded.
---
 lib/src/VertexValue.cpp | 60 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 9f7e417..3a4344f 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -302,6 +302,54 @@ inline void packHalfFloatValues(std::uint16_t* data, const double* values, unsig
 	std::memcpy(data, alignedData, sizeof(std::uint16_t)*count);
 }
 
+// Unsigned floats with 5 exponent bits, as used by Z10Y11X11_UFloat. Done here since
+// glm::packF2x11_1x10() and glm::unpackF2x11_1x10() only support normalized values.
+inline double unpackUFloat(std::uint32_t data, unsigned int mantissaBits)
+{
+	std::uint32_t mantissaSize = 1U << mantissaBits;
+	std::uint32_t exponent = (data >> mantissaBits) & 0x1F;
+	std::uint32_t mantissa = data & (mantissaSize - 1);
+	if (exponent == 0x1F)
+	{
+		return mantissa ? std::numeric_limits<double>::quiet_NaN() :
+			std::numeric_limits<double>::infinity();
+	}
+
+	// Denormalized values have the same scale as the first exponent without the implicit 1.
+	if (exponent == 0)
+		exponent = 1;
+	else
+		mantissa |= mantissaSize;
+	return std::ldexp(static_cast<double>(mantissa),
+		static_cast<int>(exponent) - 15 - static_cast<int>(mantissaBits));
+}
+
+inline std::uint32_t packUFloat(double value, unsigned int mantissaBits)
+{
+	std::uint32_t infinity = 0x1FU << mantissaBits;
+	if (std::isnan(value))
+		return infinity | 1;
+	else if (value <= 0.0)
+		return 0;
+	else if (std::isinf(value))
+		return infinity;
+
+	int exponent;
+	std::frexp(value, &exponent);
+	// Use the exponent for a mantissa in the range [1, 2), limited to the minimum exponent for
+	// denormalized values.
+	exponent = std::max(exponent - 1, -14);
+	if (exponent > 15)
+		return infinity - 1;
+
+	// The implicit 1 will increment the exponent for normalized values. This also has the correct
+	// result if rounding overflows into the next exponent.
+	auto mantissa = static_cast<std::uint32_t>(
+		std::nearbyint(std::ldexp(value, static_cast<int>(mantissaBits) - exponent)));
+	std::uint32_t result = (static_cast<std::uint32_t>(exponent + 14) << mantissaBits) + mantissa;
+	return std::min(result, infinity - 1);
+}
+
 } // namespace
 
 constexpr unsigned int VertexValue::count;
@@ -763,10 +811,9 @@ bool VertexValue::fromData(const void* data, ElementLayout layout, ElementType t
 				std::uint32_t dataValue;
 				std::memcpy(&dataValue, reinterpret_cast<const std::uint32_t*>(data),
 					sizeof(std::uint32_t));
-				glm::vec3 value = glm::unpackF2x11_1x10(dataValue);
-				m_values[0] = value[0];
-				m_values[1] = value[1];
-				m_values[2] = value[2];
+				m_values[0] = unpackUFloat(dataValue & 0x7FF, 6);
+				m_values[1] = unpackUFloat((dataValue >> 11) & 0x7FF, 6);
+				m_values[2] = unpackUFloat((dataValue >> 22) & mask10, 5);
 				m_values[3] = 1;
 				return true;
 			}
@@ -1223,9 +1270,8 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::Z10Y11X11_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF2x11_1x10(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packUFloat(m_values[0], 6) |
+					(packUFloat(m_values[1], 6) << 11) | (packUFloat(m_values[2], 5) << 22);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From 77902bd3c966f95d81c3e446e4414eaa9ce087e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 10/38] fix: support the full range of E5Z9Y9X9_UFloat when
 packing

The glm function limits values to 32768, while the format can store values up to 65408.
---
 lib/src/VertexValue.cpp | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3a4344f..76f93ca 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -350,6 +350,40 @@ inline std::uint32_t packUFloat(double value, unsigned int mantissaBits)
 	return std::min(result, infinity - 1);
 }
 
+// Shared exponent floats as used by E5Z9Y9X9_UFloat. Done here since glm::packF3x9_E1x5() limits the
+// values to half of the maximum. The steps are described in EXT_texture_shared_exponent.
+inline std::uint32_t packSharedExponent(const double* values)
+{
+	constexpr int mantissaBits = 9;
+	constexpr int bias = 15;
+	constexpr std::uint32_t mantissaSize = 1U << mantissaBits;
+	constexpr double maxValue = 65408.0;
+
+	double clampedValues[3];
+	double maxComponent = 0.0;
+	for (unsigned int i = 0; i < 3; ++i)
+	{
+		clampedValues[i] = values[i] > 0.0 ? std::min(values[i], maxValue) : 0.0;
+		maxComponent = std::max(maxComponent, clampedValues[i]);
+	}
+
+	int exponent = -bias;
+	if (maxComponent > 0.0)
+		std::frexp(maxComponent, &exponent);
+	exponent = std::max(exponent, -bias);
+	if (std::floor(std::ldexp(maxComponent, mantissaBits - exponent) + 0.5) == mantissaSize)
+		++exponent;
+
+	std::uint32_t result = static_cast<std::uint32_t>(exponent + bias) << 27;
+	for (unsigned int i = 0; i < 3; ++i)
+	{
+		auto mantissa = static_cast<std::uint32_t>(
+			std::floor(std::ldexp(clampedValues[i], mantissaBits - exponent) + 0.5));
+		result |= mantissa << (i*mantissaBits);
+	}
+	return result;
+}
+
 } // namespace
 
 constexpr unsigned int VertexValue::count;
@@ -1281,9 +1315,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::E5Z9Y9X9_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF3x9_E1x5(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packSharedExponent(m_values);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From c0072eb156b0dfeb7f0579fec2b207f6b5425ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 11/38] fix: don't reference destroyed strings for the index
 data

Short strings, such as the data for a single triangle, are stored within the string object. The
pointers to them were taken before moving the strings, so the output had garbage for the index data.
---
 tool/main.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index e01ec50..9c3a92f 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -320,7 +320,8 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-	indexStrings.reserve(indexFileData.size());
+	// The index file data references the strings, so they can't be re-allocated.
+	indexStrings.reserve(converter.getIndices().size());
 	if (outputDir.empty())
 	{
 		for (const vfc::IndexData& indexData : converter.getIndices())
@@ -329,9 +330,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, encodedData.c_str()});
 			indexStrings.push_back(std::move(encodedData));
+			indexFileData.push_back(
+				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
 		}
 	}
 	else
@@ -352,9 +353,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				return "";
 			}
 
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, indexDataPath.c_str()});
 			indexStrings.push_back(std::move(indexDataPath));
+			indexFileData.push_back(
+				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
 		}
 	}
 
-- 
2.43.0


From 47a9744ba6ef30e9d01a9d183a7ddf30d1ce8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 12/38] fix: report an error when the result can't be expressed
 as JSON

With infinite bounds the JSON output was cut off at the first infinite value, without an error.
---
 tool/ResultFile.cpp |  4 +++-
 tool/main.cpp       | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index 22b6388..f74e051 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -111,6 +111,8 @@ std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 
 	rapidjson::StringBuffer buffer;
 	rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
-	document.Accept(writer);
+	// Fails for values that aren't supported with JSON, such as infinity.
+	if (!document.Accept(writer))
+		return "";
 	return buffer.GetString();
 }
diff --git a/tool/main.cpp b/tool/main.cpp
index 9c3a92f..436d700 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -359,8 +359,14 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 		}
 	}
 
-	return resultFile(converter.getVertexFormat(), bounds, vertexData, converter.getVertexCount(),
-		converter.getIndexType(), indexFileData);
+	std::string result = resultFile(converter.getVertexFormat(), bounds, vertexData,
+		converter.getVertexCount(), converter.getIndexType(), indexFileData);
+	if (result.empty())
+	{
+		std::fprintf(stderr,
+			"error: Couldn't write output JSON, the vertex bounds may not be finite.\n");
+	}
+	return result;
 }
 
 int main(int argc, const char** argv)
-- 
2.43.0


From 98671e3e0eabfde74a9c664acb496b6b204410b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 13/38] fix: report read errors rather than throwing an
 exception

Using a directory for the config, vertex data, or index data terminated the tool with an uncaught
exception. Data that failed to be read part way through was also silently truncated.
---
 tool/ConfigFile.cpp | 21 ++++++++++++++++++++-
 tool/main.cpp       | 12 ++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 3f2b5b2..85d2a56 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -555,7 +555,26 @@ bool ConfigFile::load(const char* fileName, const vfc::Converter::ErrorFunction&
 bool ConfigFile::load(std::istream& stream, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
-	std::string json(std::istreambuf_iterator<char>(stream), {});
+	assert(errorFunction);
+	// Reading from the stream buffer directly throws an exception for errors, such as when the path
+	// is a directory.
+	std::string json;
+	char buffer[4096];
+	do
+	{
+		stream.read(buffer, sizeof(buffer));
+		json.append(buffer, static_cast<std::size_t>(stream.gcount()));
+	} while (stream.good());
+
+	if (stream.bad())
+	{
+		std::string message = "error: Couldn't read config file '";
+		message += fileName;
+		message += "'.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
diff --git a/tool/main.cpp b/tool/main.cpp
index 436d700..9244ca4 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -185,8 +185,16 @@ bool loadData(std::vector<std::uint8_t>& outData,  const std::string& configFile
 	std::ifstream stream(dataFilePath, std::ios_base::in | std::ios_base::binary);
 	if (stream.is_open())
 	{
-		outData.insert(outData.end(), std::istreambuf_iterator<char>(stream), {});
-		if (stream.good() || stream.eof())
+		// Reading from the stream buffer directly throws an exception for errors, such as when the
+		// path is a directory.
+		char buffer[4096];
+		do
+		{
+			stream.read(buffer, sizeof(buffer));
+			outData.insert(outData.end(), buffer, buffer + stream.gcount());
+		} while (stream.good());
+
+		if (!stream.bad())
 			return true;
 	}
 
-- 
2.43.0


From e8a5a5da783b0dd3b40c9f19e02a46b68113612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 14/38] fix: don't overflow the stack with deeply nested JSON

---
 tool/ConfigFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 85d2a56..b0735ae 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -583,7 +583,8 @@ bool ConfigFile::load(const char* json, const char* fileName,
 {
 	assert(errorFunction);
 	rapidjson::Document document;
-	if (document.Parse(json).HasParseError())
+	// The iterative parser won't overflow the stack with deeply nested JSON.
+	if (document.Parse<rapidjson::kParseIterativeFlag>(json).HasParseError())
 	{
 		std::string message = errorMessageStart(json, fileName, document.GetErrorOffset());
 		message += getErrorString(document.GetParseError());
-- 
2.43.0


From 559b63c45aee2ec9132130bee464094f9433e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 15/38] fix: report failures when flushing the output

Small files are only written when closing the file, and the result JSON when exiting, so failures
such as a full disk were ignored.
---
 tool/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 9244ca4..e991fe9 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -277,6 +277,8 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(data), size);
+	// Data may not be written until the file is closed.
+	stream.close();
 	return stream.good();
 }
 
@@ -457,6 +459,10 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	std::printf("%s\n", result.c_str());
+	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	{
+		std::fprintf(stderr, "error: Couldn't write output JSON.\n");
+		return 1;
+	}
 	return 0;
 }
-- 
2.43.0


From 3c6a3fb564423a84a9a3b0899fb6e261daf3bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 16/38] fix: compare whole names when finding vertex elements

Names with embedded null characters were cut short when looking them up, which allowed to append the
same name twice.
---
 lib/include/VFC/VertexFormat.h | 5 +----
 lib/src/VertexFormat.cpp       | 6 ++++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/include/VFC/VertexFormat.h b/lib/include/VFC/VertexFormat.h
index b573255..36cce8c 100644
--- a/lib/include/VFC/VertexFormat.h
+++ b/lib/include/VFC/VertexFormat.h
@@ -346,10 +346,7 @@ public:
 	const_iterator find(const char* name) const;
 
 	/** @copydoc find() */
-	const_iterator find(const std::string& name) const
-	{
-		return find(name.c_str());
-	}
+	const_iterator find(const std::string& name) const;
 
 	/**
 	 * @brief Checks if this vertex format contains the same elements as another format.
diff --git a/lib/src/VertexFormat.cpp b/lib/src/VertexFormat.cpp
index f8492fb..81900ab 100644
--- a/lib/src/VertexFormat.cpp
+++ b/lib/src/VertexFormat.cpp
@@ -418,6 +418,12 @@ VertexFormat::const_iterator VertexFormat::find(const char* name) const
 		[name](const VertexElement& element) {return element.name == name;});
 }
 
+VertexFormat::const_iterator VertexFormat::find(const std::string& name) const
+{
+	return std::find_if(m_elements.begin(), m_elements.end(),
+		[&name](const VertexElement& element) {return element.name == name;});
+}
+
 bool VertexFormat::containsElements(const VertexFormat& other) const
 {
 	for (const VertexElement& element : other)
-- 
2.43.0


From b2c948ec3dfd370086449ac3d6df735c369b0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 17/38] fix: reject strings with embedded null characters in
 the config

They were silently cut short, so 'X8\u0000...' was accepted as a layout, and different names could
become the same.
---
 tool/ConfigFile.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index b0735ae..fffbc1e 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -27,6 +27,12 @@
 #include <strings.h>
 #endif
 
+static bool isString(const rapidjson::Value& value)
+{
+	// Strings with embedded null characters would be cut short.
+	return value.IsString() && strlen(value.GetString()) == value.GetStringLength();
+}
+
 static const char* getErrorString(rapidjson::ParseErrorCode error)
 {
 	switch (error)
@@ -139,7 +145,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto nameIt = it->FindMember("name");
-		if (nameIt == it->MemberEnd() || !nameIt->value.IsString())
+		if (nameIt == it->MemberEnd() || !isString(nameIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'name' string member.";
@@ -149,7 +155,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto layoutIt = it->FindMember("layout");
-		if (layoutIt == it->MemberEnd() || !layoutIt->value.IsString())
+		if (layoutIt == it->MemberEnd() || !isString(layoutIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'layout' string member.";
@@ -171,7 +177,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto typeIt = it->FindMember("type");
-		if (typeIt == it->MemberEnd() || !typeIt->value.IsString())
+		if (typeIt == it->MemberEnd() || !isString(typeIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'type' string member.";
@@ -294,7 +300,7 @@ static bool readIndexType(vfc::IndexType& outIndexType, const rapidjson::Value&
 		return true;
 	}
 
-	if (!indexTypeIt->value.IsString())
+	if (!isString(indexTypeIt->value))
 	{
 		std::string message = fileName;
 		message += ": error: Index type must be a string.";
@@ -336,7 +342,7 @@ static bool readPrimitiveType(vfc::PrimitiveType& outPrimitiveType, std::uint32_
 		return true;
 	}
 
-	if (!primitiveTypeIt->value.IsString())
+	if (!isString(primitiveTypeIt->value))
 	{
 		std::string message = fileName;
 		message += ": error: Primitive type must be a string.";
@@ -426,7 +432,7 @@ static std::vector<ConfigFile::VertexStream> readVertexStreams(const rapidjson::
 		}
 
 		auto vertexDataIt = it->FindMember("vertexData");
-		if (vertexDataIt == it->MemberEnd() || !vertexDataIt->value.IsString())
+		if (vertexDataIt == it->MemberEnd() || !isString(vertexDataIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex stream element must contain 'vertexData' string member.";
@@ -446,7 +452,7 @@ static std::vector<ConfigFile::VertexStream> readVertexStreams(const rapidjson::
 		if (stream.indexType != vfc::IndexType::NoIndices)
 		{
 			auto indexDataIt = it->FindMember("indexData");
-			if (indexDataIt == it->MemberEnd() || !indexDataIt->value.IsString())
+			if (indexDataIt == it->MemberEnd() || !isString(indexDataIt->value))
 			{
 				std::string message = fileName;
 				message += ": error: Vertex stream element must contain 'indexData' string member.";
@@ -493,7 +499,7 @@ static bool readVertexTransforms(
 		}
 
 		auto nameIt = it->FindMember("name");
-		if (nameIt == it->MemberEnd() || !nameIt->value.IsString())
+		if (nameIt == it->MemberEnd() || !isString(nameIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex transform element must contain 'name' string member.";
@@ -502,7 +508,7 @@ static bool readVertexTransforms(
 		}
 
 		auto transformIt = it->FindMember("transform");
-		if (transformIt == it->MemberEnd() || !transformIt->value.IsString())
+		if (transformIt == it->MemberEnd() || !isString(transformIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex transform element must contain 'transform' string member.";
-- 
2.43.0


From bdc73952aba0264752e4a0467a41f089b63c503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 18/38] fix: report null characters in the config rather than
 ignoring the rest

---
 tool/ConfigFile.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index fffbc1e..a0f544d 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -581,6 +581,16 @@ bool ConfigFile::load(std::istream& stream, const char* fileName,
 		return false;
 	}
 
+	// The remainder would otherwise be silently ignored.
+	std::size_t nullPos = json.find('\0');
+	if (nullPos != std::string::npos)
+	{
+		std::string message = errorMessageStart(json.c_str(), fileName, nullPos);
+		message += "Invalid null character.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
-- 
2.43.0


From ea1e25628e224f65507747996c69f851b1fc1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 19/38] fix: don't keep bounds from a failed conversion

---
 lib/src/Converter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 6db8243..0267ae7 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -653,6 +653,9 @@ bool Converter::convert()
 			const VertexStream& stream = m_vertexStreams[elementRef.streamIndex];
 			assert(elementRef.element);
 			const VertexElement& element = *elementRef.element;
+			// May have bounds from a previous conversion that failed.
+			elementRef.minVal = VertexValue::initialBoundsMin;
+			elementRef.maxVal = VertexValue::initialBoundsMax;
 			std::uint32_t primitiveRestart = primitiveRestartIndexValue(stream.indexType);
 			for (std::uint32_t i = 0; i < m_indexCount; ++i)
 			{
-- 
2.43.0


From 9f6f5d59da01ecfb6ba5a57b49ed16eba7ba669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 20/38] fix: report too many vertices or indices rather than
 dropping the excess

---
 tool/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index e991fe9..9a062d1 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -25,6 +25,7 @@
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 
 #include <errno.h>
 #include <sys/stat.h>
@@ -241,6 +242,15 @@ bool setupConverter(vfc::Converter& converter, const ConfigFile& configFile,
 			}
 		}
 
+		std::size_t maxCount = std::numeric_limits<std::uint32_t>::max();
+		if (vertexData.size()/vertexStream.vertexFormat.stride() > maxCount ||
+			indexData.size()/indexSize > maxCount)
+		{
+			std::fprintf(stderr, "%s: error: Too many vertices or indices in vertex stream.\n",
+				configFilePath.c_str());
+			return false;
+		}
+
 		auto vertexCount =
 			static_cast<std::uint32_t>(vertexData.size()/vertexStream.vertexFormat.stride());
 		auto indexCount = static_cast<std::uint32_t>(indexData.size()/indexSize);
-- 
2.43.0


From a3d0213c9e68b22460e1bbb999eb27a43e654f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 21/38] fix: don't keep the transforms when loading another
 config

---
 tool/ConfigFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index a0f544d..14c709d 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -648,6 +648,8 @@ bool ConfigFile::load(const char* json, const char* fileName,
 	if (m_vertexStreams.empty())
 		return false;
 
+	// May have already been loaded.
+	m_transforms.clear();
 	auto vertexTransformIt = document.FindMember("vertexTransforms");
 	if (vertexTransformIt != document.MemberEnd() &&
 		!readVertexTransforms(m_transforms, vertexTransformIt->value, fileName, errorFunction))
-- 
2.43.0


From c67ab529cec6a3061da110c3907e3a5f5e432c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 22/38] fix: keep the stride of moved vertex formats in step
 with their elements

---
 lib/include/VFC/VertexFormat.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/include/VFC/VertexFormat.h b/lib/include/VFC/VertexFormat.h
index 36cce8c..7bdf3dd 100644
--- a/lib/include/VFC/VertexFormat.h
+++ b/lib/include/VFC/VertexFormat.h
@@ -21,6 +21,7 @@
 #include <cassert>
 #include <cstdint>
 #include <string>
+#include <utility>
 #include <vector>
 
 /**
@@ -320,6 +321,28 @@ public:
 	{
 	}
 
+	VertexFormat(const VertexFormat&) = default;
+	VertexFormat& operator=(const VertexFormat&) = default;
+
+	// Clear the other format so the stride matches the elements.
+	VertexFormat(VertexFormat&& other) noexcept
+		: m_elements(std::move(other.m_elements))
+		, m_stride(other.m_stride)
+	{
+		other.clear();
+	}
+
+	VertexFormat& operator=(VertexFormat&& other) noexcept
+	{
+		if (this != &other)
+		{
+			m_elements = std::move(other.m_elements);
+			m_stride = other.m_stride;
+			other.clear();
+		}
+		return *this;
+	}
+
 	/**
 	 * @brief Appends an element to the vertex format.
 	 * @param name The name of the element. This must be unique.
-- 
2.43.0


From dc4d5ffd718856a555b8f2c55eeca220996ab4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 23/38] fix: refuse meshes whose base vertices would overflow

---
 lib/src/Converter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 0267ae7..0136bca 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -719,6 +719,15 @@ bool Converter::convert()
 		if (m_indexType != IndexType::NoIndices &&
 			vertexCount + indexStride - 1 - indexData->baseVertex > maxIndexValue)
 		{
+			if (vertexCount > static_cast<std::uint32_t>(std::numeric_limits<std::int32_t>::max()))
+			{
+				logError("Too many vertices for the base vertex of the indices.");
+				m_vertices.clear();
+				m_indices.clear();
+				m_indexData.clear();
+				return false;
+			}
+
 			std::int32_t baseVertex = vertexCount;
 			m_indexData.push_back(IndexData{reinterpret_cast<void*>(m_indices.size()),
 				m_indexType, 0, baseVertex});
-- 
2.43.0


From dbaf7b091499c363011e04b50aa42f71070d6f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 24/38] fix: don't overflow when packing 32 and 64-bit
 normalized values

The largest 64-bit value isn't representable as a double, so the conversion
back to an integer overflowed, and the absolute value of the smallest 32 or
64-bit integer isn't representable at all.
---
 lib/src/VertexValue.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 76f93ca..6b2d53a 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -103,8 +103,8 @@ inline void unpackSNormValues(double* values, const std::int8_t* data, unsigned
 template <typename T>
 inline void unpackSNormValues(double* values, const T* data, unsigned int count)
 {
-	const auto absMinValue = std::abs(std::numeric_limits<T>::min());
 	constexpr auto range = std::numeric_limits<typename std::make_unsigned<T>::type>::max();
+	constexpr auto absMinValue = range/2 + 1;
 
 	assert(count <= 4);
 	T alignedData[4];
@@ -168,7 +168,9 @@ inline T packUNorm(double value, T maxValue)
 	if (std::isnan(value))
 		return 0;
 
-	return static_cast<T>(std::round(glm::clamp(value, 0.0, 1.0)*static_cast<double>(maxValue)));
+	// The maximum for 64-bit integers can't be represented exactly as a double.
+	double scaledValue = std::round(glm::clamp(value, 0.0, 1.0)*static_cast<double>(maxValue));
+	return scaledValue >= static_cast<double>(maxValue) ? maxValue : static_cast<T>(scaledValue);
 }
 
 inline void packUNormValues(std::uint8_t* data, const double* values, unsigned int count)
@@ -199,7 +201,10 @@ inline T packSNorm(double value, U absMinValue, V range)
 		value = 0.0;
 
 	double unormVal = glm::clamp(value, -1.0, 1.0)*0.5 + 0.5;
-	auto baseRange = static_cast<UnsignedT>(std::round(unormVal*static_cast<double>(range)));
+	// The maximum for 64-bit integers can't be represented exactly as a double.
+	double scaledValue = std::round(unormVal*static_cast<double>(range));
+	auto baseRange = scaledValue >= static_cast<double>(range) ? static_cast<UnsignedT>(range) :
+		static_cast<UnsignedT>(scaledValue);
 	return static_cast<T>(baseRange - absMinValue);
 }
 
@@ -215,8 +220,8 @@ inline void packSNormValues(std::int8_t* data, const double* values, unsigned in
 template <typename T>
 inline void packSNormValues(T* data, const double* values, unsigned int count)
 {
-	const auto absMinValue = std::abs(std::numeric_limits<T>::min());
 	constexpr auto range = std::numeric_limits<typename std::make_unsigned<T>::type>::max();
+	constexpr auto absMinValue = range/2 + 1;
 
 	assert(count <= 4);
 	T alignedData[4];
-- 
2.43.0


From a30766f6ab4c3e9e453a3931e72605bf1e056911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 25/38] fix: don't pass negative characters to tolower()

---
 lib/src/VertexFormat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/VertexFormat.cpp b/lib/src/VertexFormat.cpp
index 81900ab..d21c3c3 100644
--- a/lib/src/VertexFormat.cpp
+++ b/lib/src/VertexFormat.cpp
@@ -59,7 +59,8 @@ public:
 		const char* str = m_str;
 		while (int c = *str++)
 		{
-			c = std::tolower(c);
+			// Negative values are undefined.
+			c = std::tolower(static_cast<unsigned char>(c));
 			value = ((value << 5) + value) + c; // value*33 + c
 		}
 		return value;
-- 
2.43.0


From e2fcca37079151ad168532131bbd44b6f72e394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 26/38] fix: find vertex elements by their whole name

The transform and bounds overloads taking a std::string cut the name at an embedded null character, finding
another element or none.
---
 lib/include/VFC/Converter.h | 30 +++++++++++++++---------------
 lib/src/Converter.cpp       |  6 +++---
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/lib/include/VFC/Converter.h b/lib/include/VFC/Converter.h
index 8e164ae..490ec75 100644
--- a/lib/include/VFC/Converter.h
+++ b/lib/include/VFC/Converter.h
@@ -228,17 +228,17 @@ public:
 	 * @param name The name of the element.
 	 * @return The transform.
 	 */
-	Transform getElementTransform(const char* name) const;
+	Transform getElementTransform(const char* name) const
+	{
+		return getElementTransform(std::string(name));
+	}
 
 	/**
 	 * @brief Gets the transform for a vertex element by name.
 	 * @param name The name of the element.
 	 * @return The transform.
 	 */
-	Transform getElementTransform(const std::string& name) const
-	{
-		return getElementTransform(name.c_str());
-	}
+	Transform getElementTransform(const std::string& name) const;
 
 	/**
 	 * @brief Sets the transform for a vertex element by index.
@@ -259,7 +259,10 @@ public:
 	 * @param transform The transform to set.
 	 * @return False if the element wasn't found.
 	 */
-	bool setElementTransform(const char* name, Transform transform);
+	bool setElementTransform(const char* name, Transform transform)
+	{
+		return setElementTransform(std::string(name), transform);
+	}
 
 	/**
 	 * @brief Sets the transform for a vertex element by name.
@@ -267,10 +270,7 @@ public:
 	 * @param transform The transform to set.
 	 * @return False if the element wasn't found.
 	 */
-	bool setElementTransform(const std::string& name, Transform transform)
-	{
-		return setElementTransform(name.c_str(), transform);
-	}
+	bool setElementTransform(const std::string& name, Transform transform);
 
 	/**
 	 * @brief Adds a vertex stream to convert without indices.
@@ -347,7 +347,10 @@ public:
 	 * @param name The name of the vertex element.
 	 * @return False if the element wasn't found.
 	 */
-	bool getVertexElementBounds(VertexValue& outMin, VertexValue& outMax, const char* name) const;
+	bool getVertexElementBounds(VertexValue& outMin, VertexValue& outMax, const char* name) const
+	{
+		return getVertexElementBounds(outMin, outMax, std::string(name));
+	}
 
 	/**
 	 * @brief Gets the bounds for a vertex element.
@@ -360,10 +363,7 @@ public:
 	 * @return False if the element wasn't found.
 	 */
 	bool getVertexElementBounds(VertexValue& outMin, VertexValue& outMax,
-		const std::string& name) const
-	{
-		return getVertexElementBounds(outMin, outMax, name.c_str());
-	}
+		const std::string& name) const;
 
 	/**
 	 * @brief Gets the converted vertices.
diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 0136bca..5bf3b08 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -574,7 +574,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	return true;
 }
 
-Converter::Transform Converter::getElementTransform(const char* name) const
+Converter::Transform Converter::getElementTransform(const std::string& name) const
 {
 	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
 	{
@@ -587,7 +587,7 @@ Converter::Transform Converter::getElementTransform(const char* name) const
 	return Transform::Identity;
 }
 
-bool Converter::setElementTransform(const char* name, Transform transform)
+bool Converter::setElementTransform(const std::string& name, Transform transform)
 {
 	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
 	{
@@ -848,7 +848,7 @@ bool Converter::convert()
 }
 
 bool Converter::getVertexElementBounds(VertexValue& outMin, VertexValue& outMax,
-	const char* name) const
+	const std::string& name) const
 {
 	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
 	{
-- 
2.43.0


From e7f001c5d708c5eead8201441e0f48c7555ea816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 27/38] fix: keep a vertex format's elements and stride
 consistent when copying fails

The default assignment leaves the elements copied so far with the stride of the previous elements, or the
other way around, when an allocation fails.
---
 lib/include/VFC/VertexFormat.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/VFC/VertexFormat.h b/lib/include/VFC/VertexFormat.h
index 7bdf3dd..616acf4 100644
--- a/lib/include/VFC/VertexFormat.h
+++ b/lib/include/VFC/VertexFormat.h
@@ -322,7 +322,12 @@ public:
 	}
 
 	VertexFormat(const VertexFormat&) = default;
-	VertexFormat& operator=(const VertexFormat&) = default;
+
+	// Keep the previous elements if copying fails.
+	VertexFormat& operator=(const VertexFormat& other)
+	{
+		return *this = VertexFormat(other);
+	}
 
 	// Clear the other format so the stride matches the elements.
 	VertexFormat(VertexFormat&& other) noexcept
-- 
2.43.0


From 1590c931a093b06a91505acfb4d44e0e4e0a98ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 28/38] fix: don't refer to a vertex stream that couldn't be
 added

The elements were mapped to the stream before adding it, so a failed allocation left them referring to a
stream that doesn't exist.
---
 lib/src/Converter.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 5bf3b08..6793923 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -549,19 +549,26 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	if (duplicateElements)
 		return false;
 
-	m_indexCount = finalIndexCount;
 	if (!hasElements)
+	{
+		m_indexCount = finalIndexCount;
 		return true;
+	}
 
+	// Add the stream first so nothing refers to it if this fails.
 	auto streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());
+	m_vertexStreams.push_back(VertexStream{reinterpret_cast<const std::uint8_t*>(vertexData),
+		indexData, std::move(vertexFormat), vertexCount, indexType});
+	const VertexFormat& streamFormat = m_vertexStreams.back().vertexFormat;
+	m_indexCount = finalIndexCount;
 	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
 	{
 		const VertexFormat& curFormat = m_vertexFormat[i];
 		std::vector<VertexElementRef>& curElementMapping = m_elementMapping[i];
 		for (std::size_t j = 0; j < curFormat.size(); ++j)
 		{
-			auto it = vertexFormat.find(curFormat[j].name);
-			if (it == vertexFormat.end())
+			auto it = streamFormat.find(curFormat[j].name);
+			if (it == streamFormat.end())
 				continue;
 
 			curElementMapping[j].streamIndex = streamIndex;
@@ -569,8 +576,6 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 		}
 	}
 
-	m_vertexStreams.push_back(VertexStream{reinterpret_cast<const std::uint8_t*>(vertexData),
-		indexData, std::move(vertexFormat), vertexCount, indexType});
 	return true;
 }
 
-- 
2.43.0


From 9c60982ff38fc742097e07bd6c4f5c692e475c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 29/38] fix: don't keep a partial result when a conversion ends
 in an exception

The index data held offsets rather than pointers, and converting again used the left over vertices.
---
 lib/src/Converter.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 6793923..8605015 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -693,6 +693,23 @@ bool Converter::convert()
 		}
 	}
 
+	// Don't leave a partial result behind when failing, whether by returning or an exception.
+	struct ResultGuard
+	{
+		Converter& converter;
+		bool succeeded;
+
+		~ResultGuard()
+		{
+			if (succeeded)
+				return;
+
+			converter.m_vertices.clear();
+			converter.m_indices.clear();
+			converter.m_indexData.clear();
+		}
+	} resultGuard{*this, false};
+
 	// Create the combined vertex stream.
 	std::vector<std::vector<std::uint8_t>> vertexData(m_vertexFormat.size());
 	VertexSet vertexSet;
@@ -727,9 +744,6 @@ bool Converter::convert()
 			if (vertexCount > static_cast<std::uint32_t>(std::numeric_limits<std::int32_t>::max()))
 			{
 				logError("Too many vertices for the base vertex of the indices.");
-				m_vertices.clear();
-				m_indices.clear();
-				m_indexData.clear();
 				return false;
 			}
 
@@ -849,6 +863,7 @@ bool Converter::convert()
 	for (IndexData& indexData : m_indexData)
 		indexData.data = m_indices.data() + reinterpret_cast<std::size_t>(indexData.data);
 
+	resultGuard.succeeded = true;
 	return true;
 }
 
-- 
2.43.0


From f0fd0474e5dee3edbe6cf6382290d4bd8708cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 30/38] fix: look up names regardless of the locale

In a Turkish locale the lower case of I isn't i, so even names written as documented weren't found.
---
 lib/src/VertexFormat.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lib/src/VertexFormat.cpp b/lib/src/VertexFormat.cpp
index d21c3c3..2d6f538 100644
--- a/lib/src/VertexFormat.cpp
+++ b/lib/src/VertexFormat.cpp
@@ -17,24 +17,28 @@
 #include <VFC/VertexFormat.h>
 
 #include <algorithm>
-#include <cctype>
 #include <unordered_map>
 #include <utility>
 
-#include <string.h>
-
-#if VFC_WINDOWS
-#define strcasecmp(x, y) _stricmp(x, y)
-#else
-#include <strings.h>
-#endif
-
 namespace vfc
 {
 
 namespace
 {
 
+// The case conversions of the standard library depend on the locale.
+inline char lowerCase(char c)
+{
+	return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
+inline bool equalNames(const char* left, const char* right)
+{
+	for (; *left && lowerCase(*left) == lowerCase(*right); ++left, ++right)
+		/* empty */;
+	return lowerCase(*left) == lowerCase(*right);
+}
+
 class StringRef
 {
 public:
@@ -45,12 +49,12 @@ public:
 
 	bool operator==(StringRef other) const
 	{
-		return strcasecmp(m_str, other.m_str) == 0;
+		return equalNames(m_str, other.m_str);
 	}
 
 	bool operator!=(StringRef other) const
 	{
-		return strcasecmp(m_str, other.m_str) != 0;
+		return !equalNames(m_str, other.m_str);
 	}
 
 	std::size_t hash() const
@@ -58,11 +62,7 @@ public:
 		std::size_t value = 5381;
 		const char* str = m_str;
 		while (int c = *str++)
-		{
-			// Negative values are undefined.
-			c = std::tolower(static_cast<unsigned char>(c));
-			value = ((value << 5) + value) + c; // value*33 + c
-		}
+			value = ((value << 5) + value) + lowerCase(static_cast<char>(c)); // value*33 + c
 		return value;
 	}
 
-- 
2.43.0


From fa351d18349029b4b7cbed312c2bd4dfbbda63b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 31/38] fix: look up names before and after main()

The maps weren't constructed yet when used by the static constructors of an application, and already
destroyed when used by its static destructors.
---
 lib/src/VertexFormat.cpp | 83 +++++++++++-----------------------------
 1 file changed, 23 insertions(+), 60 deletions(-)

diff --git a/lib/src/VertexFormat.cpp b/lib/src/VertexFormat.cpp
index 2d6f538..4c5fee2 100644
--- a/lib/src/VertexFormat.cpp
+++ b/lib/src/VertexFormat.cpp
@@ -17,7 +17,7 @@
 #include <VFC/VertexFormat.h>
 
 #include <algorithm>
-#include <unordered_map>
+#include <cstddef>
 #include <utility>
 
 namespace vfc
@@ -39,44 +39,27 @@ inline bool equalNames(const char* left, const char* right)
 	return lowerCase(*left) == lowerCase(*right);
 }
 
-class StringRef
+template <typename T>
+struct NamedValue
 {
-public:
-	StringRef(const char* str)
-		: m_str(str)
-	{
-	}
-
-	bool operator==(StringRef other) const
-	{
-		return equalNames(m_str, other.m_str);
-	}
-
-	bool operator!=(StringRef other) const
-	{
-		return !equalNames(m_str, other.m_str);
-	}
-
-	std::size_t hash() const
-	{
-		std::size_t value = 5381;
-		const char* str = m_str;
-		while (int c = *str++)
-			value = ((value << 5) + value) + lowerCase(static_cast<char>(c)); // value*33 + c
-		return value;
-	}
-
-private:
-	const char* m_str;
+	const char* name;
+	T value;
 };
 
-struct StringRefHash
+template <typename T, std::size_t N>
+T findValue(const NamedValue<T> (&values)[N], const char* name)
 {
-	std::size_t operator()(StringRef str) const
+	if (!name)
+		return T::Invalid;
+
+	for (const NamedValue<T>& value : values)
 	{
-		return str.hash();
+		if (equalNames(value.name, name))
+			return value.value;
 	}
-};
+
+	return T::Invalid;
+}
 
 const char* const elementLayoutNames[] =
 {
@@ -186,7 +169,8 @@ const char* const primitiveTypeNames[] =
 static_assert(sizeof(primitiveTypeNames)/sizeof(*primitiveTypeNames) == primitiveTypeCount,
 	"Unexpected primitiveTypeNames size.");
 
-const std::unordered_map<StringRef, ElementLayout, StringRefHash> elementLayoutMap =
+// Plain data that may be used at any time, including before and after main().
+const NamedValue<ElementLayout> elementLayoutValues[] =
 {
 	{"X8", ElementLayout::X8},
 	{"X8Y8", ElementLayout::X8Y8},
@@ -231,7 +215,7 @@ const std::unordered_map<StringRef, ElementLayout, StringRefHash> elementLayoutM
 	{"E5B9G9R9_UFloat", ElementLayout::E5B9G9R9_UFloat}
 };
 
-const std::unordered_map<StringRef, ElementType, StringRefHash> elementTypeMap =
+const NamedValue<ElementType> elementTypeValues[] =
 {
 	{"UNorm", ElementType::UNorm},
 	{"SNorm", ElementType::SNorm},
@@ -240,7 +224,7 @@ const std::unordered_map<StringRef, ElementType, StringRefHash> elementTypeMap =
 	{"Float", ElementType::Float}
 };
 
-const std::unordered_map<StringRef, PrimitiveType, StringRefHash> primitiveTypeMap =
+const NamedValue<PrimitiveType> primitiveTypeValues[] =
 {
 	{"PointList", PrimitiveType::PointList},
 	{"LineList", PrimitiveType::LineList},
@@ -264,14 +248,7 @@ const char* elementLayoutName(ElementLayout layout, bool color)
 
 ElementLayout elementLayoutFromName(const char* name)
 {
-	if (!name)
-		return ElementLayout::Invalid;
-
-	auto it = elementLayoutMap.find(name);
-	if (it == elementLayoutMap.end())
-		return ElementLayout::Invalid;
-
-	return it->second;
+	return findValue(elementLayoutValues, name);
 }
 
 const char* elementTypeName(ElementType type)
@@ -285,14 +262,7 @@ const char* elementTypeName(ElementType type)
 
 ElementType elementTypeFromName(const char* name)
 {
-	if (!name)
-		return ElementType::Invalid;
-
-	auto it = elementTypeMap.find(name);
-	if (it == elementTypeMap.end())
-		return ElementType::Invalid;
-
-	return it->second;
+	return findValue(elementTypeValues, name);
 }
 
 std::uint32_t elementLayoutSize(ElementLayout layout)
@@ -365,14 +335,7 @@ const char* primitiveTypeName(PrimitiveType type)
 
 PrimitiveType primitiveTypeFromName(const char* name)
 {
-	if (!name)
-		return PrimitiveType::Invalid;
-
-	auto it = primitiveTypeMap.find(name);
-	if (it == primitiveTypeMap.end())
-		return PrimitiveType::Invalid;
-
-	return it->second;
+	return findValue(primitiveTypeValues, name);
 }
 
 bool isVertexCountValid(PrimitiveType primitiveType, std::uint32_t vertexCount,
-- 
2.43.0


From 12f62ef7f103cae21570809d92efc041590b4f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 32/38] fix: initialize the initial bounds before any code runs

The bounds of conversions in static constructors of an application started with zeros rather than the
largest values.
---
 lib/include/VFC/VertexValue.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index 7b496db..dfa79f8 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -59,12 +59,9 @@ public:
 	 * @param z The third value.
 	 * @param w The fourth value.
 	 */
-	explicit VertexValue(double x = 0, double y = 0, double z = 0, double w = 1)
+	explicit constexpr VertexValue(double x = 0, double y = 0, double z = 0, double w = 1)
+		: m_values{x, y, z, w}
 	{
-		m_values[0] = x;
-		m_values[1] = y;
-		m_values[2] = z;
-		m_values[3] = w;
 	}
 
 	/**
-- 
2.43.0


From 07f18149ebd73119e4f4fd79148fb0865a56e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 33/38] fix: use the same half float conversions before main()

Whether the processor converts half floats wasn't known yet in the static constructors of an application, so
halfway values were rounded differently and NaNs converted to different bits.
---
 lib/src/HalfFloat.cpp   | 7 ++++++-
 lib/src/HalfFloat.h     | 2 +-
 lib/src/VertexValue.cpp | 4 ++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/src/HalfFloat.cpp b/lib/src/HalfFloat.cpp
index badf285..c6711b8 100644
--- a/lib/src/HalfFloat.cpp
+++ b/lib/src/HalfFloat.cpp
@@ -53,6 +53,11 @@ bool checkHasHardwareHalfFloat()
 #endif
 }
 
-const bool hasHardwareHalfFloat = checkHasHardwareHalfFloat();
+bool hasHardwareHalfFloat()
+{
+	// Also needs to be known when used before main().
+	static const bool hasHardware = checkHasHardwareHalfFloat();
+	return hasHardware;
+}
 
 } // cuttlefish
diff --git a/lib/src/HalfFloat.h b/lib/src/HalfFloat.h
index 4001dc0..ae09ae9 100644
--- a/lib/src/HalfFloat.h
+++ b/lib/src/HalfFloat.h
@@ -67,7 +67,7 @@ namespace vfc
 {
 
 // Export for unit tests.
-extern const bool hasHardwareHalfFloat;
+bool hasHardwareHalfFloat();
 
 VFC_START_HALF_FLOAT()
 
diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 6b2d53a..5bb79dd 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -140,7 +140,7 @@ inline void unpackHalfFloatValues(double* values, const std::uint16_t* data, uns
 	assert(count <= 4);
 	std::uint16_t alignedData[4];
 	std::memcpy(alignedData, data, sizeof(std::uint16_t)*count);
-	if (VFC_ALWAYS_HARDWARE_HALF_FLOAT || hasHardwareHalfFloat)
+	if (VFC_ALWAYS_HARDWARE_HALF_FLOAT || hasHardwareHalfFloat())
 	{
 		VFC_ALIGN(16) float floatValues[4];
 		unpackHardwareHalfFloat4(floatValues, alignedData);
@@ -292,7 +292,7 @@ inline void packHalfFloatValues(std::uint16_t* data, const double* values, unsig
 {
 	assert(count <= 4);
 	std::uint16_t alignedData[4];
-	if (VFC_ALWAYS_HARDWARE_HALF_FLOAT || hasHardwareHalfFloat)
+	if (VFC_ALWAYS_HARDWARE_HALF_FLOAT || hasHardwareHalfFloat())
 	{
 		VFC_ALIGN(16) float floatValues[4];
 		for (unsigned int i = 0; i < count; ++i)
-- 
2.43.0


From d665ed84eaaa3179797f2ad395c8e37aec711836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 34/38] fix: strings of more than 4 GB in JSON documents

The size type of rapidjson is 32 bits by default. Strings of 716 MB (six times as large when escaped) crashed, and those of more than 4 GB were silently truncated.
---
 tool/ConfigFile.cpp | 4 ++++
 tool/ResultFile.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 14c709d..2738e03 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -15,6 +15,10 @@
  */
 
 #include "ConfigFile.h"
+// Strings may have more than 4 GB of characters. Must be the same for all sources.
+#include <cstddef>
+#define RAPIDJSON_NO_SIZETYPEDEFINE
+namespace rapidjson { typedef std::size_t SizeType; }
 #include <rapidjson/document.h>
 #include <cassert>
 #include <fstream>
diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index f74e051..11b864f 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -15,6 +15,10 @@
  */
 
 #include "ResultFile.h"
+// Strings may have more than 4 GB of characters. Must be the same for all sources.
+#include <cstddef>
+#define RAPIDJSON_NO_SIZETYPEDEFINE
+namespace rapidjson { typedef std::size_t SizeType; }
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 #include <cassert>
-- 
2.43.0


From 38c820a3ada61acf3f813d9b36e57591ad11392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 35/38] fix: limit the depth when creating output directories

An overly long output path took memory quadratic in its length.
---
 tool/main.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 9a062d1..afc54ae 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -146,11 +146,14 @@ void printHelp(const char* argv0)
 
 bool mkdirRecursive(const std::string& directory)
 {
-	std::string parentDir = path::getParentDirectory(directory);
-	if (parentDir == directory)
+	// Only try the parent directories if they're missing, limiting the depth for overly long paths.
+	if (mkdir(directory.c_str(), 0755) == 0 || errno == EEXIST)
 		return true;
+	else if (errno != ENOENT)
+		return false;
 
-	if (!parentDir.empty() && !mkdirRecursive(parentDir))
+	std::string parentDir = path::getParentDirectory(directory);
+	if (parentDir.empty() || parentDir == directory || !mkdirRecursive(parentDir))
 		return false;
 
 	return mkdir(directory.c_str(), 0755) == 0 || errno == EEXIST;
-- 
2.43.0


From 1f3d580be6dba9a5efece6728cd6e89b05290777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 36/38] fix: more than 2^32 output indices when continuing in
 another index buffer

With indices split over many index buffers, the repeated indices may exceed the number of indices that
can be input. The copied ones were then taken from the wrong place.
---
 lib/src/Converter.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8605015..d6d8a62 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -321,7 +321,7 @@ unsigned int primitiveIndexStride(PrimitiveType type, unsigned int patchPoints)
 void copyVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 	const std::vector<VertexFormat>& vertexFormat, VertexSet& vertexSet,
 	std::vector<std::uint8_t>& indices, IndexType indexType, unsigned int sizeofIndex,
-	std::uint32_t baseVertex, std::uint32_t indexIndex, std::int32_t prevBaseVertex)
+	std::uint32_t baseVertex, std::size_t indexIndex, std::int32_t prevBaseVertex)
 {
 	std::uint32_t prevIndex = getIndexValue(indexType, indices.data(), indexIndex) + prevBaseVertex;
 	std::uint32_t newIndex = addVertex(vertices, vertexFormat, prevIndex, vertexSet);
@@ -331,7 +331,7 @@ void copyVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 	const std::vector<VertexFormat>& vertexFormat, VertexSet& vertexSet,
 	std::vector<std::uint8_t>& indices, IndexType indexType, unsigned int sizeofIndex,
-	std::int32_t baseVertex, PrimitiveType primitiveType, std::uint32_t lastRestartIndex,
+	std::int32_t baseVertex, PrimitiveType primitiveType, std::size_t lastRestartIndex,
 	std::uint32_t& prevIndexCount, std::int32_t prevBaseVertex, std::uint32_t& curIndexCount)
 {
 #if VFC_DEBUG
@@ -339,7 +339,8 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 		assert(static_cast<std::size_t>(baseVertex) == vertices[i].size()/vertexFormat[i].stride());
 #endif
 
-	auto indexCount = static_cast<std::uint32_t>(indices.size()/sizeofIndex);
+	// The copies may exceed the number of indices that can be input.
+	std::size_t indexCount = indices.size()/sizeofIndex;
 	switch (primitiveType)
 	{
 		case PrimitiveType::LineStrip:
@@ -354,10 +355,10 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 		{
 			// Copy the last two vertices in their original order. If they were swapped only the first
 			// triangle would be continued, with the following triangles using the wrong vertices.
-			std::uint32_t firstIndex = lastRestartIndex + 1;
+			std::size_t firstIndex = lastRestartIndex + 1;
 			if (indexCount - firstIndex > 2)
 				firstIndex = indexCount - 2;
-			for (std::uint32_t k = firstIndex; k < indexCount; ++k)
+			for (std::size_t k = firstIndex; k < indexCount; ++k)
 			{
 				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
 					baseVertex, k, prevBaseVertex);
@@ -387,7 +388,7 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 
 	// If we had to copy all of the vertices since the last restart, there wasn't a full primitive
 	// and the number of indices for the last index buffer must be reduced.
-	auto addedIndices = static_cast<std::uint32_t>(indices.size()/sizeofIndex) - indexCount;
+	auto addedIndices = static_cast<std::uint32_t>(indices.size()/sizeofIndex - indexCount);
 	if (lastRestartIndex + 1 == indexCount - addedIndices)
 		prevIndexCount -= addedIndices;
 }
@@ -718,7 +719,7 @@ bool Converter::convert()
 	m_vertices.resize(m_vertexFormat.size());
 
 	assert(m_indexData.empty());
-	std::uint32_t lastRestartIndex = std::numeric_limits<std::uint32_t>::max();
+	std::size_t lastRestartIndex = std::numeric_limits<std::size_t>::max();
 	IndexData* indexData = nullptr;
 	unsigned int sizeofIndex = indexSize(m_indexType);
 	if (m_indexType != IndexType::NoIndices)
@@ -756,7 +757,7 @@ bool Converter::convert()
 			// Copy any vertices that are needed.
 			assert(m_indexData.size() >= 2);
 			IndexData& lastIndexData = m_indexData[m_indexData.size() - 2];
-			auto indexCount = static_cast<std::uint32_t>(m_indices.size()/sizeofIndex);
+			std::size_t indexCount = m_indices.size()/sizeofIndex;
 			copyConnectedVertices(m_vertices, m_vertexFormat, vertexSet, m_indices,
 				m_indexType, sizeofIndex, baseVertex, m_primitiveType, lastRestartIndex,
 				lastIndexData.count, lastIndexData.baseVertex, indexData->count);
@@ -830,7 +831,7 @@ bool Converter::convert()
 			{
 				assert(indexStride == 1);
 				assert(m_indexType != IndexType::NoIndices);
-				lastRestartIndex = static_cast<std::uint32_t>(m_indices.size()/sizeofIndex);
+				lastRestartIndex = m_indices.size()/sizeofIndex;
 				addIndex(m_indices, m_indexType, sizeofIndex,
 					primitiveRestartIndexValue(m_indexType));
 				++indexData->count;
-- 
2.43.0


From 1804aae358548e0c938584580063ad5b6de79db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 37/38] fix: report failures to write the help

Errors when writing to standard output with --help were ignored, exiting with 0.
---
 tool/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index afc54ae..1009aca 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -401,6 +401,11 @@ int main(int argc, const char** argv)
 		if (std::strcmp(argv[i], "-h") == 0 || std::strcmp(argv[i], "--help") == 0)
 		{
 			printHelp(argv[0]);
+			if (std::fflush(stdout) != 0 || std::ferror(stdout))
+			{
+				std::fprintf(stderr, "error: Couldn't write help.\n");
+				return 1;
+			}
 			return 0;
 		}
 		else if (std::strcmp(argv[i], "-i") == 0 || std::strcmp(argv[i], "--input") == 0)
-- 
2.43.0


From 3f9b1d225e3646f65f6904dc4e281dd5266eda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 38/38] fix: reset the patch points when loading another
 configuration

Loading a configuration without patches into an object that held one with patches kept its patch
points.
---
 tool/ConfigFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 2738e03..bd42ff0 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -338,11 +338,12 @@ static bool readPrimitiveType(vfc::PrimitiveType& outPrimitiveType, std::uint32_
 	const rapidjson::Value& rootValue, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
+	// May have already been loaded.
+	outPatchPoints = 0;
 	auto primitiveTypeIt = rootValue.FindMember("primitiveType");
 	if (primitiveTypeIt == rootValue.MemberEnd() || primitiveTypeIt->value.IsNull())
 	{
 		outPrimitiveType = vfc::PrimitiveType::TriangleList;
-		outPatchPoints = 0;
 		return true;
 	}
 
-- 
2.43.0

