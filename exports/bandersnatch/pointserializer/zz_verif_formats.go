//go:build verif_formats

package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

// VerifSerializers are serializers for the formats without exported serializers: X||Y, X and the sign of Y, Y and the sign of X;
// and for the Banderwagon formats without bit headers.
func VerifSerializers() []CurvePointSerializerModifyable {
	e := common.DefaultEndian
	h := trivialSimpleHeaderSerializer
	return []CurvePointSerializerModifyable{
		newMultiSerializer(&pointSerializerXY{valuesSerializerHeaderFeHeaderFe: valuesSerializerHeaderFeHeaderFe{fieldElementEndianness: e}}, h),
		newMultiSerializer(&pointSerializerXAndSignY{valuesSerializerFeCompressedBit: valuesSerializerFeCompressedBit{fieldElementEndianness: e}}, h),
		newMultiSerializer(&pointSerializerYAndSignX{valuesSerializerFeCompressedBit: valuesSerializerFeCompressedBit{fieldElementEndianness: e}}, h),
		newMultiSerializer(&pointSerializerXTimesSignY{valuesSerializerHeaderFe: valuesSerializerHeaderFe{fieldElementEndianness: e}}, h),
		newMultiSerializer(&pointSerializerYXTimesSignY{valuesSerializerHeaderFeHeaderFe: valuesSerializerHeaderFeHeaderFe{fieldElementEndianness: e}}, h),
	}
}
