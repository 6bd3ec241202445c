//go:build go1.23

// Written by tools/gen_structs.py.

package errs

import "fmt"

type Num int
type num int
type Shape interface{ Area() int }
type shape interface{ Area() int }

type E000 struct {
	C func()
	X Num
	D fmt.Stringer
	B *Num
}

type e001 struct {
	A  *int
	Ä1 bool
}

type e002 struct {
	e001
	Ä1 chan int
	C  string
	D  map[string]int
}

type E003 struct {
	D string
	E000
	e001
	X fmt.Stringer
}

type E004 struct {
	D func()
	X map[string]int
	C any
	E003
	e002
}

type E005 struct {
	B []int
	D *Num
	e001
	C fmt.Stringer
}

type e006 struct {
	C struct{ Z int }
	D map[string]int
	A chan int
}

type E007 struct {
	Ä1 string
	C  struct{ Z int }
	A  int
}

type E008 struct {
	e002
	B  float64
	C  Shape
	X  any
	Ä1 chan int
}

type E009 struct {
	C fmt.Stringer
	E008
	e001
	X int
}

type E010 struct {
	E009
	C fmt.Stringer
	E000
	X error
}

type E011 struct {
	e001
	E010
	e006
}

type e012 struct {
	e002
	D []int
	B chan int
}

type E013 struct {
	C [2]int
	e001
}

type e014 struct {
	X *Num
	E004
	C map[string]int
}

type e015 struct {
	E011
	A *int
	B func()
	C map[string]int
	E005
}

type e016 struct {
	D func()
	X []int
	e001
}

type E017 struct {
	X [2]int
	C map[string]int
	E009
	A struct{ Z int }
	E005
}

type E018 struct {
	A  fmt.Stringer
	Ä1 int
	*e014
	D bool
}

type E019 struct {
	E005
	E017
}

type E020 struct {
	B *Num
	e016
	E017
}

type E021 struct {
	D  bool
	A  *Num
	C  bool
	Ä1 []int
	e012
	e001
}

type e022 struct {
	B  bool
	Ä1 map[string]int
	C  Shape
}

type E023 struct {
	B float64
	E011
	Ä1 chan int
	C  [2]int
}

type e024 struct {
	e001
	A bool
	D error
}

type E025 struct {
	E011
	C bool
	e012
}

type e026 struct {
	X *Num
}

type E027 struct {
	E023
	B map[string]int
	C func()
}

type E028 struct {
	X *int
	B error
	E027
}

type e029 struct {
	D func()
	X fmt.Stringer
}

type E030 struct {
	e015
}

type e031 struct {
	X  map[string]int
	Ä1 bool
	B  []int
	D  Num
}

type E032 struct {
	E010
	C []int
}

type E033 struct {
	num
	C any
	B chan int
}

type E034 struct {
	E027
	A [2]int
	Num
	C string
	e016
	E028
}

type E035 struct {
	E011
	X *int
	*E013
	D fmt.Stringer
}

type E036 struct {
	C *Num
	X any
	D []int
	A struct{ Z int }
}

type E037 struct {
	num
	e026
	e029
	Ä1 [2]int
	C  string
	E035
}

type E038 struct {
	E033
	C string
	D chan int
}

type e039 struct {
	E034
	e031
	C [2]int
	B chan int
	E018
}

type E040 struct {
	Ä1 func()
	A  struct{ Z int }
}

type E041 struct {
	C      [2]int
	A      float64
	hidden int
	e006
	e039
	e029
}

type E042 struct {
	*num
	X bool
	E011
}

type E043 struct {
}

type E044 struct {
}

type e045 struct {
	*E037
}

type e046 struct {
	E040
	E033
	E025
}

type e047 struct {
	X *int
	A string
}

type E048 struct {
	E021
	C any
}

type e049 struct {
	B bool
}

type E050 struct {
	e022
	E036
	C []int
	D map[string]int
	B *Num
	shape
}

type E051 struct {
	X  func()
	Ä1 chan int
	E033
}

type e052 struct {
	E038
	B *Num
}

type e053 struct {
	D Num
}

type e054 struct {
	D any
	E051
}

type e055 struct {
	E040
	X error
	D chan int
}

type e056 struct {
	Ä1 *int
	E041
	X Shape
	D string
}

type e057 struct {
}

type e058 struct {
	Ä1 Num
	error
	E037
}

type e059 struct {
	*E019
	Ä1 Shape
	C  fmt.Stringer
}

type e060 struct {
	E036
	*E005
	Ä1 *int
	e056
	e047
	B fmt.Stringer
}

type E061 struct {
	B []int
	X struct{ Z int }
	C int
}

type E062 struct {
	Ä1 int
	e054
}

type E063 struct {
	E050
	A *Num
}

type e064 struct {
	C  struct{ Z int }
	Ä1 chan int
}

type E065 struct {
	E020
	Ä1 any
	Shape
	A *int
}

type E066 struct {
	Ä1 int
	e060
}

type E067 struct {
	C  Num
	Ä1 Shape
}

type E068 struct {
	E043
	A float64
	X []int
	E062
}

type E069 struct {
	C Shape
	A bool
}

type E070 struct {
	e057
	C *Num
	E019
	A []int
}

type E071 struct {
	E062
	*E010
	E061
	E069
}

type E072 struct {
	D  [2]int
	ä  int
	B  int
	Ä1 Shape
}

type E073 struct {
	E072
	Ä1 []int
	A  fmt.Stringer
	C  fmt.Stringer
}

type E074 struct {
	B func()
	e002
	E072
	D func()
	E068
	A bool
}

type e075 struct {
	X int
	C *Num
	e053
}

type E076 struct {
	A float64
	B *int
	E068
}

type e077 struct {
	*e016
	B error
	A *int
}

type e078 struct {
	E067
	X int
	E009
	A string
	E063
}

type E079 struct {
	C float64
	e078
	D *int
	B map[string]int
	A map[string]int
}

type e080 struct {
	e075
	Num
	e058
	D fmt.Stringer
	E013
}

type E081 struct {
}

type e082 struct {
	B Num
	e058
	D func()
}

type E083 struct {
	E073
	X error
	E065
	B      [2]int
	hidden int
	D      chan int
}

type e084 struct {
	A  [2]int
	Ä1 Shape
	C  int
	D  chan int
	E027
	E081
}

type e085 struct {
	E048
}

type E086 struct {
	X struct{ Z int }
	A error
	C Shape
	E065
}

type e087 struct {
	D chan int
	B string
	C chan int
	X *Num
}

type E088 struct {
	e054
	X *int
	A Shape
	C *int
	D chan int
}

type E089 struct {
	Ä1 float64
}

type E090 struct {
	E076
	e078
}

type e091 struct {
}

type E092 struct {
	X error
	e075
	B fmt.Stringer
	E071
}

type E093 struct {
	X map[string]int
	D map[string]int
}

type E094 struct {
	C  struct{ Z int }
	D  int
	Ä1 Shape
	shape
}

type E095 struct {
	X int
	E072
	A int
	e060
	e084
	B []int
}

type e096 struct {
	A int
	E007
}

type e097 struct {
	X int
	D string
	E074
}

type e098 struct {
	Ä1 fmt.Stringer
	e075
}

type E099 struct {
	D *int
}

type e100 struct {
	B []int
	e080
	*E020
	X  *int
	Ä1 [2]int
}

type e101 struct {
	A  []int
	Ä1 float64
}

type e102 struct {
	E095
	E094
	Ä1 func()
}

type e103 struct {
	A *Num
	B Num
}

type e104 struct {
	Ä1 *Num
	X  int
}

type E105 struct {
	*E027
	A *int
	B float64
	E086
	e091
}

type E106 struct {
	E095
	B bool
	C chan int
	E083
	E089
}

type E107 struct {
	*Num
	E020
}

type E108 struct {
	D int
	e087
	E105
}

type E109 struct {
	C float64
	A Num
	X any
}

type e110 struct {
	*E108
}

type E111 struct {
	X fmt.Stringer
}

type E112 struct {
	D *int
	e103
	X [2]int
	e104
}

type E113 struct {
	num
	D error
}

type e114 struct {
	X fmt.Stringer
	E113
}

type E115 struct {
}

type E116 struct {
	E003
}

type e117 struct {
	E094
	Ä1 bool
	B  any
}

type e118 struct {
	E095
	Ä1 float64
	D  map[string]int
}

type e119 struct {
	E023
	E112
}

type E120 struct {
	B int
	X chan int
}

type E121 struct {
	D  float64
	Ä1 *Num
	A  chan int
}

type e122 struct {
	e103
	Ä1 func()
	B  *int
}

type e123 struct {
	e046
}

type e124 struct {
}

type E125 struct {
	_ int
	D fmt.Stringer
}

type E126 struct {
	e077
	X int
	D [2]int
	A int
}

type E127 struct {
}

type e128 struct {
	Ä1 Num
	C  map[string]int
}

type E129 struct {
	hidden int
	X      error
	A      string
	e124
	E113
	Ä1 []int
}

type e130 struct {
	C any
	D chan int
	B chan int
	*num
	E011
}

type e131 struct {
	e049
	E107
	X []int
	C Num
}

type e132 struct {
	E129
	D string
	E003
	E120
}

type E133 struct {
	X func()
	E111
}

type E134 struct {
	E113
	e012
	e132
	B map[string]int
}

type E135 struct {
	E133
	X string
}

type e136 struct {
	Ä1 []int
	e132
}

type E137 struct {
	E065
	E120
	A *Num
	e123
}

type E138 struct {
	e136
	A float64
	C *Num
	E129
	E003
}

type E139 struct {
	X bool
	B [2]int
	E032
	Ä1 bool
	E138
}

type e140 struct {
	e131
	B  *int
	Ä1 chan int
	C  func()
}

type e141 struct {
	e118
	X map[string]int
	D [2]int
}

type E142 struct {
	E134
	E138
	e141
}

type e143 struct {
	*num
	C  Shape
	Ä1 bool
}

type E144 struct {
	X  any
	C  Num
	Ä1 []int
}

type E145 struct {
	*Num
	A *int
	C [2]int
	B [2]int
}

type e146 struct {
	E133
	A  chan int
	Ä1 *int
	C  Shape
}

type E147 struct {
	B fmt.Stringer
	X any
}

type E148 struct {
	C bool
	E071
	A Shape
}

type e149 struct {
	E137
	E139
}

type e150 struct {
}

type e151 struct {
	E139
	A map[string]int
	D []int
	E079
}

type E152 struct {
	Ä1 struct{ Z int }
	C  any
	D  *Num
}

type E153 struct {
	Ä1 [2]int
	E137
}

type e154 struct {
	E142
	D map[string]int
}

type E155 struct {
	C bool
	B error
	E135
	E138
	D float64
}

type e156 struct {
	E062
	Ä1 fmt.Stringer
	X  chan int
	A  error
	E147
	E133
}

type e157 struct {
	X int
	E050
	C [2]int
}

type E158 struct {
	E148
	D Shape
	B []int
}

type E159 struct {
	B float64
	e146
	D string
	e117
}

// some by hand
type leafX struct{ X int }
type midX struct{ leafX }
type twice struct {
	leafX
	midX
}
type twiceResolved struct {
	leafX
	midX
	X string
}
type deep1 struct {
	A int
	deep2
}
type deep2 struct {
	A string
	deep3
}
type deep3 struct {
	A bool
	B deep4
}
type deep4 struct{ A, B any }
type ambiguous struct {
	leafX
	other
}
type other struct{ X string }
type through struct {
	outerX
	C int
}
type outerX struct {
	X error
	midX
}
type wide struct{ A, B, C, D, F, G, H, I, J, K any }
type withShape struct {
	Shape
	A int
}
type generic[T any] struct{ A T }
type embedsGeneric struct{ generic[int] }
type wider struct {
	W00, W01, W02, W03, W04, W05, W06, W07, W08, W09, W10, W11, W12 int
	half
	A, W13, W14, W15, W16 string
}
type half struct {
	W00, W07, W14, W21, B, C string
	W22, W23, W24, W25, W26  any
	quarter
}
type quarter struct {
	W21, W24, W31, W00, C bool
	X                     int
}
type clash struct {
	V00, V01, V02, V03, V04, V05, V06, V07, V08, V09 int
	half
	sameHalf
}
type sameHalf struct{ D, W25 any }
type widest struct {
	U00 int
	U01 string
	U02 any
	U03 []int
	U04 error
	U05 bool
	U06 int
	U07 string
	U08 any
	U09 []int
	U10 error
	U11 bool
	U12 int
	U13 string
	U14 any
	U15 []int
	U16 error
	U17 bool
	U18 int
	U19 string
	U20 any
	U21 []int
	U22 error
	U23 bool
	U24 int
	U25 string
	U26 any
	U27 []int
	U28 error
	U29 bool
	U30 int
	U31 string
	U32 any
	U33 []int
	U34 error
	U35 bool
	U36 int
	U37 string
	U38 any
	U39 []int
	U40 error
	U41 bool
	U42 int
	U43 string
	U44 any
	U45 []int
	U46 error
	U47 bool
	U48 int
	U49 string
	U50 any
	U51 []int
	U52 error
	U53 bool
	U54 int
	U55 string
	U56 any
	U57 []int
	U58 error
	U59 bool
	U60 int
	U61 string
	U62 any
	U63 []int
	U64 error
	U65 bool
	U66 int
	U67 string
	U68 any
	U69 []int
}
type down0 struct {
	A int
	down1
}
type down1 struct {
	B int
	down2
}
type down2 struct {
	A, C int
	down3
}
type down3 struct {
	D string
	down4
}
type down4 struct {
	B, E any
	down5
}
type down5 struct {
	down6
	C, F error
}
type down6 struct{ A, B, C, D, E, F, G, X any }

var catalogue = []*sops{
	opsFor[E000](),
	opsFor[e001](),
	opsFor[e002](),
	opsFor[E003](),
	opsFor[E004](),
	opsFor[E005](),
	opsFor[e006](),
	opsFor[E007](),
	opsFor[E008](),
	opsFor[E009](),
	opsFor[E010](),
	opsFor[E011](),
	opsFor[e012](),
	opsFor[E013](),
	opsFor[e014](),
	opsFor[e015](),
	opsFor[e016](),
	opsFor[E017](),
	opsFor[E018](),
	opsFor[E019](),
	opsFor[E020](),
	opsFor[E021](),
	opsFor[e022](),
	opsFor[E023](),
	opsFor[e024](),
	opsFor[E025](),
	opsFor[e026](),
	opsFor[E027](),
	opsFor[E028](),
	opsFor[e029](),
	opsFor[E030](),
	opsFor[e031](),
	opsFor[E032](),
	opsFor[E033](),
	opsFor[E034](),
	opsFor[E035](),
	opsFor[E036](),
	opsFor[E037](),
	opsFor[E038](),
	opsFor[e039](),
	opsFor[E040](),
	opsFor[E041](),
	opsFor[E042](),
	opsFor[E043](),
	opsFor[E044](),
	opsFor[e045](),
	opsFor[e046](),
	opsFor[e047](),
	opsFor[E048](),
	opsFor[e049](),
	opsFor[E050](),
	opsFor[E051](),
	opsFor[e052](),
	opsFor[e053](),
	opsFor[e054](),
	opsFor[e055](),
	opsFor[e056](),
	opsFor[e057](),
	opsFor[e058](),
	opsFor[e059](),
	opsFor[e060](),
	opsFor[E061](),
	opsFor[E062](),
	opsFor[E063](),
	opsFor[e064](),
	opsFor[E065](),
	opsFor[E066](),
	opsFor[E067](),
	opsFor[E068](),
	opsFor[E069](),
	opsFor[E070](),
	opsFor[E071](),
	opsFor[E072](),
	opsFor[E073](),
	opsFor[E074](),
	opsFor[e075](),
	opsFor[E076](),
	opsFor[e077](),
	opsFor[e078](),
	opsFor[E079](),
	opsFor[e080](),
	opsFor[E081](),
	opsFor[e082](),
	opsFor[E083](),
	opsFor[e084](),
	opsFor[e085](),
	opsFor[E086](),
	opsFor[e087](),
	opsFor[E088](),
	opsFor[E089](),
	opsFor[E090](),
	opsFor[e091](),
	opsFor[E092](),
	opsFor[E093](),
	opsFor[E094](),
	opsFor[E095](),
	opsFor[e096](),
	opsFor[e097](),
	opsFor[e098](),
	opsFor[E099](),
	opsFor[e100](),
	opsFor[e101](),
	opsFor[e102](),
	opsFor[e103](),
	opsFor[e104](),
	opsFor[E105](),
	opsFor[E106](),
	opsFor[E107](),
	opsFor[E108](),
	opsFor[E109](),
	opsFor[e110](),
	opsFor[E111](),
	opsFor[E112](),
	opsFor[E113](),
	opsFor[e114](),
	opsFor[E115](),
	opsFor[E116](),
	opsFor[e117](),
	opsFor[e118](),
	opsFor[e119](),
	opsFor[E120](),
	opsFor[E121](),
	opsFor[e122](),
	opsFor[e123](),
	opsFor[e124](),
	opsFor[E125](),
	opsFor[E126](),
	opsFor[E127](),
	opsFor[e128](),
	opsFor[E129](),
	opsFor[e130](),
	opsFor[e131](),
	opsFor[e132](),
	opsFor[E133](),
	opsFor[E134](),
	opsFor[E135](),
	opsFor[e136](),
	opsFor[E137](),
	opsFor[E138](),
	opsFor[E139](),
	opsFor[e140](),
	opsFor[e141](),
	opsFor[E142](),
	opsFor[e143](),
	opsFor[E144](),
	opsFor[E145](),
	opsFor[e146](),
	opsFor[E147](),
	opsFor[E148](),
	opsFor[e149](),
	opsFor[e150](),
	opsFor[e151](),
	opsFor[E152](),
	opsFor[E153](),
	opsFor[e154](),
	opsFor[E155](),
	opsFor[e156](),
	opsFor[e157](),
	opsFor[E158](),
	opsFor[E159](),
	opsFor[twice](),
	opsFor[twiceResolved](),
	opsFor[deep1](),
	opsFor[deep2](),
	opsFor[deep3](),
	opsFor[deep4](),
	opsFor[ambiguous](),
	opsFor[through](),
	opsFor[outerX](),
	opsFor[wide](),
	opsFor[withShape](),
	opsFor[struct{}](),
	opsFor[struct{ A int }](),
	opsFor[struct{ a int }](),
	opsFor[generic[any]](),
	opsFor[generic[*int]](),
	opsFor[embedsGeneric](),
	opsFor[int](),
	opsFor[*leafX](),
	opsFor[[]leafX](),
	opsFor[any](),
	opsFor[error](),
	opsFor[map[string]any](),
	opsFor[Num](),
	opsFor[func()](),
	opsFor[struct{ *leafX }](),
	opsFor[struct{ *Num }](),
	opsFor[struct{ Num }](),
	opsFor[struct{ Shape }](),
	opsFor[wider](),
	opsFor[half](),
	opsFor[quarter](),
	opsFor[clash](),
	opsFor[widest](),
	opsFor[down0](),
	opsFor[down3](),
	opsFor[down5](),
	opsFor[down6](),
}

var pairs = []pair{
	pairOf[deep1, E017](),
	pairOf[embedsGeneric, e052](),
	pairOf[E148, E000](),
	pairOf[through, E023](),
	pairOf[E010, down3](),
	pairOf[e077, E025](),
	pairOf[E027, down0](),
	pairOf[E030, e052](),
	pairOf[e058, E000](),
	pairOf[any, map[string]any](),
	pairOf[E042, E037](),
	pairOf[E004, struct{}](),
	pairOf[struct{}, E000](),
	pairOf[wider, E033](),
	pairOf[e131, struct{}](),
	pairOf[e015, func()](),
	pairOf[e001, func()](),
	pairOf[E155, E003](),
	pairOf[E025, e015](),
	pairOf[E032, e012](),
	pairOf[E020, E030](),
	pairOf[e103, down0](),
	pairOf[E088, E035](),
	pairOf[E135, e016](),
	pairOf[E013, E004](),
	pairOf[E106, ambiguous](),
	pairOf[E120, e012](),
	pairOf[e149, E011](),
	pairOf[e014, any](),
	pairOf[e078, down5](),
	pairOf[e026, down0](),
	pairOf[e132, down6](),
	pairOf[e014, int](),
	pairOf[*leafX, E044](),
	pairOf[E074, wider](),
	pairOf[wide, through](),
	pairOf[E034, E008](),
	pairOf[E038, map[string]any](),
	pairOf[e046, E013](),
	pairOf[e149, wider](),
	pairOf[E139, e057](),
	pairOf[E033, deep2](),
	pairOf[E115, E044](),
	pairOf[E139, wide](),
	pairOf[e131, E038](),
	pairOf[e059, deep1](),
	pairOf[E147, E044](),
	pairOf[e078, embedsGeneric](),
	pairOf[E072, E007](),
	pairOf[through, quarter](),
	pairOf[E145, e026](),
	pairOf[e124, down6](),
	pairOf[E095, E018](),
	pairOf[E017, deep3](),
	pairOf[e117, e054](),
	pairOf[E121, e029](),
	pairOf[E148, e055](),
	pairOf[e080, e015](),
	pairOf[e085, []leafX](),
	pairOf[e080, e055](),
	pairOf[E040, struct{}](),
	pairOf[e045, func()](),
	pairOf[e058, e057](),
	pairOf[through, e014](),
	pairOf[E106, map[string]any](),
	pairOf[E013, E043](),
	pairOf[e102, E021](),
	pairOf[E027, E037](),
	pairOf[E041, down5](),
	pairOf[E093, deep1](),
	pairOf[e078, e058](),
	pairOf[generic[*int], E040](),
	pairOf[e078, generic[*int]](),
	pairOf[E138, e059](),
	pairOf[e151, Num](),
	pairOf[E108, embedsGeneric](),
	pairOf[E115, E044](),
	pairOf[e136, E028](),
	pairOf[e046, e053](),
	pairOf[e136, E010](),
	pairOf[e015, E042](),
	pairOf[e001, E021](),
	pairOf[E105, ambiguous](),
	pairOf[e110, E043](),
	pairOf[e058, deep1](),
	pairOf[E081, E005](),
	pairOf[E147, int](),
	pairOf[E037, E008](),
	pairOf[E027, down6](),
	pairOf[e141, E017](),
	pairOf[e022, twice](),
	pairOf[E099, e016](),
	pairOf[func(), func()](),
	pairOf[E021, E003](),
	pairOf[E105, E021](),
	pairOf[E048, down5](),
	pairOf[ambiguous, e057](),
	pairOf[func(), ambiguous](),
	pairOf[e104, E033](),
	pairOf[E079, E003](),
	pairOf[e087, e029](),
	pairOf[E089, E030](),
	pairOf[E004, twiceResolved](),
	pairOf[E063, E035](),
	pairOf[E155, twiceResolved](),
	pairOf[E076, E036](),
	pairOf[generic[any], down6](),
	pairOf[e002, quarter](),
	pairOf[E094, E011](),
	pairOf[ambiguous, E025](),
	pairOf[e151, E042](),
	pairOf[*leafX, E018](),
	pairOf[E092, E009](),
	pairOf[e154, through](),
	pairOf[E138, e022](),
	pairOf[E093, E017](),
	pairOf[e143, half](),
	pairOf[e026, through](),
	pairOf[func(), E020](),
	pairOf[E050, E005](),
}
