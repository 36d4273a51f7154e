// generated by tools/gen_e2e.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use e2esut::*;
use enum_like_derive::EnumLike;
#[derive(Clone, Copy, EnumLike)]
pub enum E6  { Mid, Zed, Alpha, Quux, Beta, Yard }
impl Spec for E6 {
    fn count() -> u128 { 6u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E6::Mid; } i -= 1;
        if i == 0 { return E6::Zed; } i -= 1;
        if i == 0 { return E6::Alpha; } i -= 1;
        if i == 0 { return E6::Quux; } i -= 1;
        if i == 0 { return E6::Beta; } i -= 1;
        if i == 0 { return E6::Yard; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E6::Mid => 0u128,
            E6::Zed => 1u128,
            E6::Alpha => 2u128,
            E6::Quux => 3u128,
            E6::Beta => 4u128,
            E6::Yard => 5u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E14  { V257, V256, V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V239, V238, V237, V236, V235, V234, V233, V232, V231, V230, V229, V228, V227, V226, V225, V224, V223, V222, V221, V220, V219, V218, V217, V216, V215, V214, V213, V212, V211, V210, V209, V208, V207, V206, V205, V204, V203, V202, V201, V200, V199, V198, V197, V196, V195, V194, V193, V192, V191, V190, V189, V188, V187, V186, V185, V184, V183, V182, V181, V180, V179, V178, V177, V176, V175, V174, V173, V172, V171, V170, V169, V168, V167, V166, V165, V164, V163, V162, V161, V160, V159, V158, V157, V156, V155, V154, V153, V152, V151, V150, V149, V148, V147, V146, V145, V144, V143, V142, V141, V140, V139, V138, V137, V136, V135, V134, V133, V132, V131, V130, V129, V128, V127, V126, V125, V124, V123, V122, V121, V120, V119, V118, V117, V116, V115, V114, V113, V112, V111, V110, V109, V108, V107, V106, V105, V104, V103, V102, V101, V100, V99, V98, V97, V96, V95, V94, V93, V92, V91, V90, V89, V88, V87, V86, V85, V84, V83, V82, V81, V80, V79, V78, V77, V76, V75, V74, V73, V72, V71, V70, V69, V68, V67, V66, V65, V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43, V42, V41, V40, V39, V38, V37, V36, V35, V34, V33, V32, V31, V30, V29, V28, V27, V26, V25, V24, V23, V22, V21, V20, V19, V18, V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E14 {
    fn count() -> u128 { 257u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E14::V257; } i -= 1;
        if i == 0 { return E14::V256; } i -= 1;
        if i == 0 { return E14::V255; } i -= 1;
        if i == 0 { return E14::V254; } i -= 1;
        if i == 0 { return E14::V253; } i -= 1;
        if i == 0 { return E14::V252; } i -= 1;
        if i == 0 { return E14::V251; } i -= 1;
        if i == 0 { return E14::V250; } i -= 1;
        if i == 0 { return E14::V249; } i -= 1;
        if i == 0 { return E14::V248; } i -= 1;
        if i == 0 { return E14::V247; } i -= 1;
        if i == 0 { return E14::V246; } i -= 1;
        if i == 0 { return E14::V245; } i -= 1;
        if i == 0 { return E14::V244; } i -= 1;
        if i == 0 { return E14::V243; } i -= 1;
        if i == 0 { return E14::V242; } i -= 1;
        if i == 0 { return E14::V241; } i -= 1;
        if i == 0 { return E14::V240; } i -= 1;
        if i == 0 { return E14::V239; } i -= 1;
        if i == 0 { return E14::V238; } i -= 1;
        if i == 0 { return E14::V237; } i -= 1;
        if i == 0 { return E14::V236; } i -= 1;
        if i == 0 { return E14::V235; } i -= 1;
        if i == 0 { return E14::V234; } i -= 1;
        if i == 0 { return E14::V233; } i -= 1;
        if i == 0 { return E14::V232; } i -= 1;
        if i == 0 { return E14::V231; } i -= 1;
        if i == 0 { return E14::V230; } i -= 1;
        if i == 0 { return E14::V229; } i -= 1;
        if i == 0 { return E14::V228; } i -= 1;
        if i == 0 { return E14::V227; } i -= 1;
        if i == 0 { return E14::V226; } i -= 1;
        if i == 0 { return E14::V225; } i -= 1;
        if i == 0 { return E14::V224; } i -= 1;
        if i == 0 { return E14::V223; } i -= 1;
        if i == 0 { return E14::V222; } i -= 1;
        if i == 0 { return E14::V221; } i -= 1;
        if i == 0 { return E14::V220; } i -= 1;
        if i == 0 { return E14::V219; } i -= 1;
        if i == 0 { return E14::V218; } i -= 1;
        if i == 0 { return E14::V217; } i -= 1;
        if i == 0 { return E14::V216; } i -= 1;
        if i == 0 { return E14::V215; } i -= 1;
        if i == 0 { return E14::V214; } i -= 1;
        if i == 0 { return E14::V213; } i -= 1;
        if i == 0 { return E14::V212; } i -= 1;
        if i == 0 { return E14::V211; } i -= 1;
        if i == 0 { return E14::V210; } i -= 1;
        if i == 0 { return E14::V209; } i -= 1;
        if i == 0 { return E14::V208; } i -= 1;
        if i == 0 { return E14::V207; } i -= 1;
        if i == 0 { return E14::V206; } i -= 1;
        if i == 0 { return E14::V205; } i -= 1;
        if i == 0 { return E14::V204; } i -= 1;
        if i == 0 { return E14::V203; } i -= 1;
        if i == 0 { return E14::V202; } i -= 1;
        if i == 0 { return E14::V201; } i -= 1;
        if i == 0 { return E14::V200; } i -= 1;
        if i == 0 { return E14::V199; } i -= 1;
        if i == 0 { return E14::V198; } i -= 1;
        if i == 0 { return E14::V197; } i -= 1;
        if i == 0 { return E14::V196; } i -= 1;
        if i == 0 { return E14::V195; } i -= 1;
        if i == 0 { return E14::V194; } i -= 1;
        if i == 0 { return E14::V193; } i -= 1;
        if i == 0 { return E14::V192; } i -= 1;
        if i == 0 { return E14::V191; } i -= 1;
        if i == 0 { return E14::V190; } i -= 1;
        if i == 0 { return E14::V189; } i -= 1;
        if i == 0 { return E14::V188; } i -= 1;
        if i == 0 { return E14::V187; } i -= 1;
        if i == 0 { return E14::V186; } i -= 1;
        if i == 0 { return E14::V185; } i -= 1;
        if i == 0 { return E14::V184; } i -= 1;
        if i == 0 { return E14::V183; } i -= 1;
        if i == 0 { return E14::V182; } i -= 1;
        if i == 0 { return E14::V181; } i -= 1;
        if i == 0 { return E14::V180; } i -= 1;
        if i == 0 { return E14::V179; } i -= 1;
        if i == 0 { return E14::V178; } i -= 1;
        if i == 0 { return E14::V177; } i -= 1;
        if i == 0 { return E14::V176; } i -= 1;
        if i == 0 { return E14::V175; } i -= 1;
        if i == 0 { return E14::V174; } i -= 1;
        if i == 0 { return E14::V173; } i -= 1;
        if i == 0 { return E14::V172; } i -= 1;
        if i == 0 { return E14::V171; } i -= 1;
        if i == 0 { return E14::V170; } i -= 1;
        if i == 0 { return E14::V169; } i -= 1;
        if i == 0 { return E14::V168; } i -= 1;
        if i == 0 { return E14::V167; } i -= 1;
        if i == 0 { return E14::V166; } i -= 1;
        if i == 0 { return E14::V165; } i -= 1;
        if i == 0 { return E14::V164; } i -= 1;
        if i == 0 { return E14::V163; } i -= 1;
        if i == 0 { return E14::V162; } i -= 1;
        if i == 0 { return E14::V161; } i -= 1;
        if i == 0 { return E14::V160; } i -= 1;
        if i == 0 { return E14::V159; } i -= 1;
        if i == 0 { return E14::V158; } i -= 1;
        if i == 0 { return E14::V157; } i -= 1;
        if i == 0 { return E14::V156; } i -= 1;
        if i == 0 { return E14::V155; } i -= 1;
        if i == 0 { return E14::V154; } i -= 1;
        if i == 0 { return E14::V153; } i -= 1;
        if i == 0 { return E14::V152; } i -= 1;
        if i == 0 { return E14::V151; } i -= 1;
        if i == 0 { return E14::V150; } i -= 1;
        if i == 0 { return E14::V149; } i -= 1;
        if i == 0 { return E14::V148; } i -= 1;
        if i == 0 { return E14::V147; } i -= 1;
        if i == 0 { return E14::V146; } i -= 1;
        if i == 0 { return E14::V145; } i -= 1;
        if i == 0 { return E14::V144; } i -= 1;
        if i == 0 { return E14::V143; } i -= 1;
        if i == 0 { return E14::V142; } i -= 1;
        if i == 0 { return E14::V141; } i -= 1;
        if i == 0 { return E14::V140; } i -= 1;
        if i == 0 { return E14::V139; } i -= 1;
        if i == 0 { return E14::V138; } i -= 1;
        if i == 0 { return E14::V137; } i -= 1;
        if i == 0 { return E14::V136; } i -= 1;
        if i == 0 { return E14::V135; } i -= 1;
        if i == 0 { return E14::V134; } i -= 1;
        if i == 0 { return E14::V133; } i -= 1;
        if i == 0 { return E14::V132; } i -= 1;
        if i == 0 { return E14::V131; } i -= 1;
        if i == 0 { return E14::V130; } i -= 1;
        if i == 0 { return E14::V129; } i -= 1;
        if i == 0 { return E14::V128; } i -= 1;
        if i == 0 { return E14::V127; } i -= 1;
        if i == 0 { return E14::V126; } i -= 1;
        if i == 0 { return E14::V125; } i -= 1;
        if i == 0 { return E14::V124; } i -= 1;
        if i == 0 { return E14::V123; } i -= 1;
        if i == 0 { return E14::V122; } i -= 1;
        if i == 0 { return E14::V121; } i -= 1;
        if i == 0 { return E14::V120; } i -= 1;
        if i == 0 { return E14::V119; } i -= 1;
        if i == 0 { return E14::V118; } i -= 1;
        if i == 0 { return E14::V117; } i -= 1;
        if i == 0 { return E14::V116; } i -= 1;
        if i == 0 { return E14::V115; } i -= 1;
        if i == 0 { return E14::V114; } i -= 1;
        if i == 0 { return E14::V113; } i -= 1;
        if i == 0 { return E14::V112; } i -= 1;
        if i == 0 { return E14::V111; } i -= 1;
        if i == 0 { return E14::V110; } i -= 1;
        if i == 0 { return E14::V109; } i -= 1;
        if i == 0 { return E14::V108; } i -= 1;
        if i == 0 { return E14::V107; } i -= 1;
        if i == 0 { return E14::V106; } i -= 1;
        if i == 0 { return E14::V105; } i -= 1;
        if i == 0 { return E14::V104; } i -= 1;
        if i == 0 { return E14::V103; } i -= 1;
        if i == 0 { return E14::V102; } i -= 1;
        if i == 0 { return E14::V101; } i -= 1;
        if i == 0 { return E14::V100; } i -= 1;
        if i == 0 { return E14::V99; } i -= 1;
        if i == 0 { return E14::V98; } i -= 1;
        if i == 0 { return E14::V97; } i -= 1;
        if i == 0 { return E14::V96; } i -= 1;
        if i == 0 { return E14::V95; } i -= 1;
        if i == 0 { return E14::V94; } i -= 1;
        if i == 0 { return E14::V93; } i -= 1;
        if i == 0 { return E14::V92; } i -= 1;
        if i == 0 { return E14::V91; } i -= 1;
        if i == 0 { return E14::V90; } i -= 1;
        if i == 0 { return E14::V89; } i -= 1;
        if i == 0 { return E14::V88; } i -= 1;
        if i == 0 { return E14::V87; } i -= 1;
        if i == 0 { return E14::V86; } i -= 1;
        if i == 0 { return E14::V85; } i -= 1;
        if i == 0 { return E14::V84; } i -= 1;
        if i == 0 { return E14::V83; } i -= 1;
        if i == 0 { return E14::V82; } i -= 1;
        if i == 0 { return E14::V81; } i -= 1;
        if i == 0 { return E14::V80; } i -= 1;
        if i == 0 { return E14::V79; } i -= 1;
        if i == 0 { return E14::V78; } i -= 1;
        if i == 0 { return E14::V77; } i -= 1;
        if i == 0 { return E14::V76; } i -= 1;
        if i == 0 { return E14::V75; } i -= 1;
        if i == 0 { return E14::V74; } i -= 1;
        if i == 0 { return E14::V73; } i -= 1;
        if i == 0 { return E14::V72; } i -= 1;
        if i == 0 { return E14::V71; } i -= 1;
        if i == 0 { return E14::V70; } i -= 1;
        if i == 0 { return E14::V69; } i -= 1;
        if i == 0 { return E14::V68; } i -= 1;
        if i == 0 { return E14::V67; } i -= 1;
        if i == 0 { return E14::V66; } i -= 1;
        if i == 0 { return E14::V65; } i -= 1;
        if i == 0 { return E14::V64; } i -= 1;
        if i == 0 { return E14::V63; } i -= 1;
        if i == 0 { return E14::V62; } i -= 1;
        if i == 0 { return E14::V61; } i -= 1;
        if i == 0 { return E14::V60; } i -= 1;
        if i == 0 { return E14::V59; } i -= 1;
        if i == 0 { return E14::V58; } i -= 1;
        if i == 0 { return E14::V57; } i -= 1;
        if i == 0 { return E14::V56; } i -= 1;
        if i == 0 { return E14::V55; } i -= 1;
        if i == 0 { return E14::V54; } i -= 1;
        if i == 0 { return E14::V53; } i -= 1;
        if i == 0 { return E14::V52; } i -= 1;
        if i == 0 { return E14::V51; } i -= 1;
        if i == 0 { return E14::V50; } i -= 1;
        if i == 0 { return E14::V49; } i -= 1;
        if i == 0 { return E14::V48; } i -= 1;
        if i == 0 { return E14::V47; } i -= 1;
        if i == 0 { return E14::V46; } i -= 1;
        if i == 0 { return E14::V45; } i -= 1;
        if i == 0 { return E14::V44; } i -= 1;
        if i == 0 { return E14::V43; } i -= 1;
        if i == 0 { return E14::V42; } i -= 1;
        if i == 0 { return E14::V41; } i -= 1;
        if i == 0 { return E14::V40; } i -= 1;
        if i == 0 { return E14::V39; } i -= 1;
        if i == 0 { return E14::V38; } i -= 1;
        if i == 0 { return E14::V37; } i -= 1;
        if i == 0 { return E14::V36; } i -= 1;
        if i == 0 { return E14::V35; } i -= 1;
        if i == 0 { return E14::V34; } i -= 1;
        if i == 0 { return E14::V33; } i -= 1;
        if i == 0 { return E14::V32; } i -= 1;
        if i == 0 { return E14::V31; } i -= 1;
        if i == 0 { return E14::V30; } i -= 1;
        if i == 0 { return E14::V29; } i -= 1;
        if i == 0 { return E14::V28; } i -= 1;
        if i == 0 { return E14::V27; } i -= 1;
        if i == 0 { return E14::V26; } i -= 1;
        if i == 0 { return E14::V25; } i -= 1;
        if i == 0 { return E14::V24; } i -= 1;
        if i == 0 { return E14::V23; } i -= 1;
        if i == 0 { return E14::V22; } i -= 1;
        if i == 0 { return E14::V21; } i -= 1;
        if i == 0 { return E14::V20; } i -= 1;
        if i == 0 { return E14::V19; } i -= 1;
        if i == 0 { return E14::V18; } i -= 1;
        if i == 0 { return E14::V17; } i -= 1;
        if i == 0 { return E14::V16; } i -= 1;
        if i == 0 { return E14::V15; } i -= 1;
        if i == 0 { return E14::V14; } i -= 1;
        if i == 0 { return E14::V13; } i -= 1;
        if i == 0 { return E14::V12; } i -= 1;
        if i == 0 { return E14::V11; } i -= 1;
        if i == 0 { return E14::V10; } i -= 1;
        if i == 0 { return E14::V9; } i -= 1;
        if i == 0 { return E14::V8; } i -= 1;
        if i == 0 { return E14::V7; } i -= 1;
        if i == 0 { return E14::V6; } i -= 1;
        if i == 0 { return E14::V5; } i -= 1;
        if i == 0 { return E14::V4; } i -= 1;
        if i == 0 { return E14::V3; } i -= 1;
        if i == 0 { return E14::V2; } i -= 1;
        if i == 0 { return E14::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E14::V257 => 0u128,
            E14::V256 => 1u128,
            E14::V255 => 2u128,
            E14::V254 => 3u128,
            E14::V253 => 4u128,
            E14::V252 => 5u128,
            E14::V251 => 6u128,
            E14::V250 => 7u128,
            E14::V249 => 8u128,
            E14::V248 => 9u128,
            E14::V247 => 10u128,
            E14::V246 => 11u128,
            E14::V245 => 12u128,
            E14::V244 => 13u128,
            E14::V243 => 14u128,
            E14::V242 => 15u128,
            E14::V241 => 16u128,
            E14::V240 => 17u128,
            E14::V239 => 18u128,
            E14::V238 => 19u128,
            E14::V237 => 20u128,
            E14::V236 => 21u128,
            E14::V235 => 22u128,
            E14::V234 => 23u128,
            E14::V233 => 24u128,
            E14::V232 => 25u128,
            E14::V231 => 26u128,
            E14::V230 => 27u128,
            E14::V229 => 28u128,
            E14::V228 => 29u128,
            E14::V227 => 30u128,
            E14::V226 => 31u128,
            E14::V225 => 32u128,
            E14::V224 => 33u128,
            E14::V223 => 34u128,
            E14::V222 => 35u128,
            E14::V221 => 36u128,
            E14::V220 => 37u128,
            E14::V219 => 38u128,
            E14::V218 => 39u128,
            E14::V217 => 40u128,
            E14::V216 => 41u128,
            E14::V215 => 42u128,
            E14::V214 => 43u128,
            E14::V213 => 44u128,
            E14::V212 => 45u128,
            E14::V211 => 46u128,
            E14::V210 => 47u128,
            E14::V209 => 48u128,
            E14::V208 => 49u128,
            E14::V207 => 50u128,
            E14::V206 => 51u128,
            E14::V205 => 52u128,
            E14::V204 => 53u128,
            E14::V203 => 54u128,
            E14::V202 => 55u128,
            E14::V201 => 56u128,
            E14::V200 => 57u128,
            E14::V199 => 58u128,
            E14::V198 => 59u128,
            E14::V197 => 60u128,
            E14::V196 => 61u128,
            E14::V195 => 62u128,
            E14::V194 => 63u128,
            E14::V193 => 64u128,
            E14::V192 => 65u128,
            E14::V191 => 66u128,
            E14::V190 => 67u128,
            E14::V189 => 68u128,
            E14::V188 => 69u128,
            E14::V187 => 70u128,
            E14::V186 => 71u128,
            E14::V185 => 72u128,
            E14::V184 => 73u128,
            E14::V183 => 74u128,
            E14::V182 => 75u128,
            E14::V181 => 76u128,
            E14::V180 => 77u128,
            E14::V179 => 78u128,
            E14::V178 => 79u128,
            E14::V177 => 80u128,
            E14::V176 => 81u128,
            E14::V175 => 82u128,
            E14::V174 => 83u128,
            E14::V173 => 84u128,
            E14::V172 => 85u128,
            E14::V171 => 86u128,
            E14::V170 => 87u128,
            E14::V169 => 88u128,
            E14::V168 => 89u128,
            E14::V167 => 90u128,
            E14::V166 => 91u128,
            E14::V165 => 92u128,
            E14::V164 => 93u128,
            E14::V163 => 94u128,
            E14::V162 => 95u128,
            E14::V161 => 96u128,
            E14::V160 => 97u128,
            E14::V159 => 98u128,
            E14::V158 => 99u128,
            E14::V157 => 100u128,
            E14::V156 => 101u128,
            E14::V155 => 102u128,
            E14::V154 => 103u128,
            E14::V153 => 104u128,
            E14::V152 => 105u128,
            E14::V151 => 106u128,
            E14::V150 => 107u128,
            E14::V149 => 108u128,
            E14::V148 => 109u128,
            E14::V147 => 110u128,
            E14::V146 => 111u128,
            E14::V145 => 112u128,
            E14::V144 => 113u128,
            E14::V143 => 114u128,
            E14::V142 => 115u128,
            E14::V141 => 116u128,
            E14::V140 => 117u128,
            E14::V139 => 118u128,
            E14::V138 => 119u128,
            E14::V137 => 120u128,
            E14::V136 => 121u128,
            E14::V135 => 122u128,
            E14::V134 => 123u128,
            E14::V133 => 124u128,
            E14::V132 => 125u128,
            E14::V131 => 126u128,
            E14::V130 => 127u128,
            E14::V129 => 128u128,
            E14::V128 => 129u128,
            E14::V127 => 130u128,
            E14::V126 => 131u128,
            E14::V125 => 132u128,
            E14::V124 => 133u128,
            E14::V123 => 134u128,
            E14::V122 => 135u128,
            E14::V121 => 136u128,
            E14::V120 => 137u128,
            E14::V119 => 138u128,
            E14::V118 => 139u128,
            E14::V117 => 140u128,
            E14::V116 => 141u128,
            E14::V115 => 142u128,
            E14::V114 => 143u128,
            E14::V113 => 144u128,
            E14::V112 => 145u128,
            E14::V111 => 146u128,
            E14::V110 => 147u128,
            E14::V109 => 148u128,
            E14::V108 => 149u128,
            E14::V107 => 150u128,
            E14::V106 => 151u128,
            E14::V105 => 152u128,
            E14::V104 => 153u128,
            E14::V103 => 154u128,
            E14::V102 => 155u128,
            E14::V101 => 156u128,
            E14::V100 => 157u128,
            E14::V99 => 158u128,
            E14::V98 => 159u128,
            E14::V97 => 160u128,
            E14::V96 => 161u128,
            E14::V95 => 162u128,
            E14::V94 => 163u128,
            E14::V93 => 164u128,
            E14::V92 => 165u128,
            E14::V91 => 166u128,
            E14::V90 => 167u128,
            E14::V89 => 168u128,
            E14::V88 => 169u128,
            E14::V87 => 170u128,
            E14::V86 => 171u128,
            E14::V85 => 172u128,
            E14::V84 => 173u128,
            E14::V83 => 174u128,
            E14::V82 => 175u128,
            E14::V81 => 176u128,
            E14::V80 => 177u128,
            E14::V79 => 178u128,
            E14::V78 => 179u128,
            E14::V77 => 180u128,
            E14::V76 => 181u128,
            E14::V75 => 182u128,
            E14::V74 => 183u128,
            E14::V73 => 184u128,
            E14::V72 => 185u128,
            E14::V71 => 186u128,
            E14::V70 => 187u128,
            E14::V69 => 188u128,
            E14::V68 => 189u128,
            E14::V67 => 190u128,
            E14::V66 => 191u128,
            E14::V65 => 192u128,
            E14::V64 => 193u128,
            E14::V63 => 194u128,
            E14::V62 => 195u128,
            E14::V61 => 196u128,
            E14::V60 => 197u128,
            E14::V59 => 198u128,
            E14::V58 => 199u128,
            E14::V57 => 200u128,
            E14::V56 => 201u128,
            E14::V55 => 202u128,
            E14::V54 => 203u128,
            E14::V53 => 204u128,
            E14::V52 => 205u128,
            E14::V51 => 206u128,
            E14::V50 => 207u128,
            E14::V49 => 208u128,
            E14::V48 => 209u128,
            E14::V47 => 210u128,
            E14::V46 => 211u128,
            E14::V45 => 212u128,
            E14::V44 => 213u128,
            E14::V43 => 214u128,
            E14::V42 => 215u128,
            E14::V41 => 216u128,
            E14::V40 => 217u128,
            E14::V39 => 218u128,
            E14::V38 => 219u128,
            E14::V37 => 220u128,
            E14::V36 => 221u128,
            E14::V35 => 222u128,
            E14::V34 => 223u128,
            E14::V33 => 224u128,
            E14::V32 => 225u128,
            E14::V31 => 226u128,
            E14::V30 => 227u128,
            E14::V29 => 228u128,
            E14::V28 => 229u128,
            E14::V27 => 230u128,
            E14::V26 => 231u128,
            E14::V25 => 232u128,
            E14::V24 => 233u128,
            E14::V23 => 234u128,
            E14::V22 => 235u128,
            E14::V21 => 236u128,
            E14::V20 => 237u128,
            E14::V19 => 238u128,
            E14::V18 => 239u128,
            E14::V17 => 240u128,
            E14::V16 => 241u128,
            E14::V15 => 242u128,
            E14::V14 => 243u128,
            E14::V13 => 244u128,
            E14::V12 => 245u128,
            E14::V11 => 246u128,
            E14::V10 => 247u128,
            E14::V9 => 248u128,
            E14::V8 => 249u128,
            E14::V7 => 250u128,
            E14::V6 => 251u128,
            E14::V5 => 252u128,
            E14::V4 => 253u128,
            E14::V3 => 254u128,
            E14::V2 => 255u128,
            E14::V1 => 256u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E22  { Mid(Never, Tri, ()) }
impl Spec for E22 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return E22::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E22::Mid(f0, f1, f2) => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E30  { Mid { m: Tri, z: bool }, Zed { m: Tri, z: bool } }
impl Spec for E30 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E30::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E30::Zed { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E30::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E30::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E38  { Mid, Zed { m: Never, z: bool }, Alpha(Option<bool>) }
impl Spec for E38 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E38::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E38::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E38::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E38::Mid => 0u128,
            E38::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E38::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E46  { Mid(Never), Zed(bool), Alpha(Tri, Two, Tri) }
impl Spec for E46 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E46::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E46::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E46::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E46::Mid(f0) => 0u128 + f0.index(),
            E46::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E46::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E54  { Mid { m: Tri }, Zed(Tri, bool), Alpha { m: bool, z: Tri } }
impl Spec for E54 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E54::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E54::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E54::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E54::Mid { m: f0 } => 0u128 + f0.index(),
            E54::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E54::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E62  { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha { m: Tri } }
impl Spec for E62 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E62::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E62::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E62::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E62::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E62::Zed(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E62::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E70  { Mid(()), Zed, Alpha(bool) }
impl Spec for E70 {
    fn count() -> u128 { 1u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E70::Zed; } i -= 1;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E70::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E70::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E70::Zed => 0u128,
            E70::Mid(f0) => 1u128 + f0.index(),
            E70::Alpha(f0) => 1u128 + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E78  { Mid(Tri, Two, Tri), Zed(Never), Alpha(Option<bool>) }
impl Spec for E78 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E78::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E78::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E78::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E78::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E78::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E78::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E86  { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }
impl Spec for E86 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E86::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E86::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E86::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E86::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E86::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E86::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E94  { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }
impl Spec for E94 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E94::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E94::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E94::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E94::Mid(f0) => 0u128 + f0.index(),
            E94::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E94::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E102  { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E102 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E102::Mid; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E102::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E102::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E102::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E102::Mid => 0u128,
            E102::Zed(f0) => 1u128 + f0.index(),
            E102::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E102::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E110  { Mid(Tri), Zed(Two), Alpha(Never), Quux { m: bool, z: Tri } }
impl Spec for E110 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E110::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E110::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E110::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E110::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E110::Mid(f0) => 0u128 + f0.index(),
            E110::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E110::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E110::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E118  { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Two), Quux }
impl Spec for E118 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E118::Quux; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E118::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E118::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E118::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E118::Quux => 0u128,
            E118::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E118::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E118::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E126  { Mid(Never), Zed(Two), Alpha(Two), Quux(Never) }
impl Spec for E126 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E126::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E126::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E126::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E126::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E126::Mid(f0) => 0u128 + f0.index(),
            E126::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E126::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E126::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E134  { Mid, Zed, Alpha, Quux(bool, Tri), Beta }
impl Spec for E134 {
    fn count() -> u128 { 4u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E134::Mid; } i -= 1;
        if i == 0 { return E134::Zed; } i -= 1;
        if i == 0 { return E134::Alpha; } i -= 1;
        if i == 0 { return E134::Beta; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E134::Quux(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E134::Mid => 0u128,
            E134::Zed => 1u128,
            E134::Alpha => 2u128,
            E134::Beta => 3u128,
            E134::Quux(f0, f1) => 4u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E142  { Mid(Option<Never>, Result<Tri,bool>), Zed { m: Result<Tri,bool> } }
impl Spec for E142 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<Never> as Spec>::count() * <Result<Tri,bool> as Spec>::count() + 1u128 * <Result<Tri,bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<Never> as Spec>::count() * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<Never>>(&mut r); let f1 = pick::<Result<Tri,bool>>(&mut r); return E142::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Result<Tri,bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Result<Tri,bool>>(&mut r); return E142::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E142::Mid(f0, f1) => 0u128 + f0.index() + <Option<Never> as Spec>::count() * f1.index(),
            E142::Zed { m: f0 } => 0u128 + 1u128 * <Option<Never> as Spec>::count() * <Result<Tri,bool> as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S150   { m: (), z: Five, a: () }
impl Spec for S150 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Five as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Five>(&mut r); let f2 = pick::<()>(&mut r); return S150 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S150 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Five as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S158   { m: Tri, z: bool, a: Five }
impl Spec for S158 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Five>(&mut r); return S158 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S158 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S166   { m: bool, z: (), a: Tri, q: () }
impl Spec for S166 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<()>(&mut r); return S166 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S166 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index() + <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S174   { m: [Never;1], z: Tri }
impl Spec for S174 {
    fn count() -> u128 { 0u128 + 1u128 * <[Never;1] as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[Never;1] as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Never;1]>(&mut r); let f1 = pick::<Tri>(&mut r); return S174 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S174 { m: f0, z: f1 } => 0u128 + f0.index() + <[Never;1] as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S182<A> (A) ;
impl<A: Spec> Spec for S182<A> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); return S182(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S182(f0) => 0u128 + f0.index(),
        }
    }
}
pub fn all(v: &mut Vec<Ty>) {
    v.push(ty::<E6>("E6: enum E6 { Mid, Zed, Alpha, Quux, Beta, Yard }", vec![u8_::<E6>(), u16_::<E6>(), u32_::<E6>(), u64_::<E6>(), u128_::<E6>(), small_::<E6>(), p8_::<E6>(), p16_::<E6>()]));
    v.push(ty::<Result<bool, [E6; 1]>>("Result<bool, [E6; 1]>: enum E6 { Mid, Zed, Alpha, Quux, Beta, Yard }", vec![u8_::<Result<bool, [E6; 1]>>(), u16_::<Result<bool, [E6; 1]>>(), u32_::<Result<bool, [E6; 1]>>(), u64_::<Result<bool, [E6; 1]>>(), u128_::<Result<bool, [E6; 1]>>(), small_::<Result<bool, [E6; 1]>>(), p8_::<Result<bool, [E6; 1]>>(), p16_::<Result<bool, [E6; 1]>>()]));
    v.push(ty::<E14>("E14: enum E14 { V257, V256, V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V", vec![u16_::<E14>(), u32_::<E14>(), u64_::<E14>(), u128_::<E14>(), small_::<E14>(), p16_::<E14>()]));
    v.push(ty::<Option<E14>>("Option<E14>: enum E14 { V257, V256, V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V", vec![u16_::<Option<E14>>(), u32_::<Option<E14>>(), u64_::<Option<E14>>(), u128_::<Option<E14>>(), small_::<Option<E14>>(), p16_::<Option<E14>>()]));
    v.push(ty::<E22>("E22: enum E22 { Mid(Never, Tri, ()) }", vec![]));
    v.push(ty::<(E22, bool)>("(E22, bool): enum E22 { Mid(Never, Tri, ()) }", vec![]));
    v.push(ty::<E30>("E30: enum E30 { Mid { m: Tri, z: bool }, Zed { m: Tri, z: bool } }", vec![u8_::<E30>(), u16_::<E30>(), u32_::<E30>(), u64_::<E30>(), u128_::<E30>(), small_::<E30>(), p8_::<E30>(), p16_::<E30>()]));
    v.push(ty::<Result<E30, Tri>>("Result<E30, Tri>: enum E30 { Mid { m: Tri, z: bool }, Zed { m: Tri, z: bool } }", vec![u8_::<Result<E30, Tri>>(), u16_::<Result<E30, Tri>>(), u32_::<Result<E30, Tri>>(), u64_::<Result<E30, Tri>>(), u128_::<Result<E30, Tri>>(), small_::<Result<E30, Tri>>(), p8_::<Result<E30, Tri>>(), p16_::<Result<E30, Tri>>()]));
    v.push(ty::<E38>("E38: enum E38 { Mid, Zed { m: Never, z: bool }, Alpha(Option<bool>) }", vec![u8_::<E38>(), u16_::<E38>(), u32_::<E38>(), u64_::<E38>(), u128_::<E38>(), small_::<E38>(), p8_::<E38>(), p16_::<E38>()]));
    v.push(ty::<[E38; 2]>("[E38; 2]: enum E38 { Mid, Zed { m: Never, z: bool }, Alpha(Option<bool>) }", vec![u8_::<[E38; 2]>(), u16_::<[E38; 2]>(), u32_::<[E38; 2]>(), u64_::<[E38; 2]>(), u128_::<[E38; 2]>(), small_::<[E38; 2]>(), p8_::<[E38; 2]>(), p16_::<[E38; 2]>()]));
    v.push(ty::<E46>("E46: enum E46 { Mid(Never), Zed(bool), Alpha(Tri, Two, Tri) }", vec![u8_::<E46>(), u16_::<E46>(), u32_::<E46>(), u64_::<E46>(), u128_::<E46>(), small_::<E46>(), p8_::<E46>(), p16_::<E46>()]));
    v.push(ty::<Option<(Tri, E46)>>("Option<(Tri, E46)>: enum E46 { Mid(Never), Zed(bool), Alpha(Tri, Two, Tri) }", vec![u8_::<Option<(Tri, E46)>>(), u16_::<Option<(Tri, E46)>>(), u32_::<Option<(Tri, E46)>>(), u64_::<Option<(Tri, E46)>>(), u128_::<Option<(Tri, E46)>>(), small_::<Option<(Tri, E46)>>(), p8_::<Option<(Tri, E46)>>(), p16_::<Option<(Tri, E46)>>()]));
    v.push(ty::<E54>("E54: enum E54 { Mid { m: Tri }, Zed(Tri, bool), Alpha { m: bool, z: Tri } }", vec![u8_::<E54>(), u16_::<E54>(), u32_::<E54>(), u64_::<E54>(), u128_::<E54>(), small_::<E54>(), p8_::<E54>(), p16_::<E54>()]));
    v.push(ty::<(E54,)>("(E54,): enum E54 { Mid { m: Tri }, Zed(Tri, bool), Alpha { m: bool, z: Tri } }", vec![u8_::<(E54,)>(), u16_::<(E54,)>(), u32_::<(E54,)>(), u64_::<(E54,)>(), u128_::<(E54,)>(), small_::<(E54,)>(), p8_::<(E54,)>(), p16_::<(E54,)>()]));
    v.push(ty::<E62>("E62: enum E62 { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha { m: Tri } }", vec![u8_::<E62>(), u16_::<E62>(), u32_::<E62>(), u64_::<E62>(), u128_::<E62>(), small_::<E62>(), p8_::<E62>(), p16_::<E62>()]));
    v.push(ty::<Result<bool, [E62; 1]>>("Result<bool, [E62; 1]>: enum E62 { Mid(Tri, bool), Zed(Tri, Two, Tri), Alpha { m: Tri } }", vec![u8_::<Result<bool, [E62; 1]>>(), u16_::<Result<bool, [E62; 1]>>(), u32_::<Result<bool, [E62; 1]>>(), u64_::<Result<bool, [E62; 1]>>(), u128_::<Result<bool, [E62; 1]>>(), small_::<Result<bool, [E62; 1]>>(), p8_::<Result<bool, [E62; 1]>>(), p16_::<Result<bool, [E62; 1]>>()]));
    v.push(ty::<E70>("E70: enum E70 { Mid(()), Zed, Alpha(bool) }", vec![u8_::<E70>(), u16_::<E70>(), u32_::<E70>(), u64_::<E70>(), u128_::<E70>(), small_::<E70>(), p8_::<E70>(), p16_::<E70>()]));
    v.push(ty::<Option<E70>>("Option<E70>: enum E70 { Mid(()), Zed, Alpha(bool) }", vec![u8_::<Option<E70>>(), u16_::<Option<E70>>(), u32_::<Option<E70>>(), u64_::<Option<E70>>(), u128_::<Option<E70>>(), small_::<Option<E70>>(), p8_::<Option<E70>>(), p16_::<Option<E70>>()]));
    v.push(ty::<E78>("E78: enum E78 { Mid(Tri, Two, Tri), Zed(Never), Alpha(Option<bool>) }", vec![u8_::<E78>(), u16_::<E78>(), u32_::<E78>(), u64_::<E78>(), u128_::<E78>(), small_::<E78>(), p8_::<E78>(), p16_::<E78>()]));
    v.push(ty::<(E78, bool)>("(E78, bool): enum E78 { Mid(Tri, Two, Tri), Zed(Never), Alpha(Option<bool>) }", vec![u8_::<(E78, bool)>(), u16_::<(E78, bool)>(), u32_::<(E78, bool)>(), u64_::<(E78, bool)>(), u128_::<(E78, bool)>(), small_::<(E78, bool)>(), p8_::<(E78, bool)>(), p16_::<(E78, bool)>()]));
    v.push(ty::<E86>("E86: enum E86 { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<E86>(), u16_::<E86>(), u32_::<E86>(), u64_::<E86>(), u128_::<E86>(), small_::<E86>(), p8_::<E86>(), p16_::<E86>()]));
    v.push(ty::<Result<E86, Tri>>("Result<E86, Tri>: enum E86 { Mid { m: Never, z: bool }, Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<Result<E86, Tri>>(), u16_::<Result<E86, Tri>>(), u32_::<Result<E86, Tri>>(), u64_::<Result<E86, Tri>>(), u128_::<Result<E86, Tri>>(), small_::<Result<E86, Tri>>(), p8_::<Result<E86, Tri>>(), p16_::<Result<E86, Tri>>()]));
    v.push(ty::<E94>("E94: enum E94 { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }", vec![u8_::<E94>(), u16_::<E94>(), u32_::<E94>(), u64_::<E94>(), u128_::<E94>(), small_::<E94>(), p8_::<E94>(), p16_::<E94>()]));
    v.push(ty::<[E94; 2]>("[E94; 2]: enum E94 { Mid(Option<bool>), Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }", vec![u8_::<[E94; 2]>(), u16_::<[E94; 2]>(), u32_::<[E94; 2]>(), u64_::<[E94; 2]>(), u128_::<[E94; 2]>(), small_::<[E94; 2]>(), p8_::<[E94; 2]>(), p16_::<[E94; 2]>()]));
    v.push(ty::<E102>("E102: enum E102 { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Two) }", vec![u8_::<E102>(), u16_::<E102>(), u32_::<E102>(), u64_::<E102>(), u128_::<E102>(), small_::<E102>(), p8_::<E102>(), p16_::<E102>()]));
    v.push(ty::<Option<(Tri, E102)>>("Option<(Tri, E102)>: enum E102 { Mid, Zed(Two), Alpha { m: bool, z: Tri }, Quux(Two) }", vec![u8_::<Option<(Tri, E102)>>(), u16_::<Option<(Tri, E102)>>(), u32_::<Option<(Tri, E102)>>(), u64_::<Option<(Tri, E102)>>(), u128_::<Option<(Tri, E102)>>(), small_::<Option<(Tri, E102)>>(), p8_::<Option<(Tri, E102)>>(), p16_::<Option<(Tri, E102)>>()]));
    v.push(ty::<E110>("E110: enum E110 { Mid(Tri), Zed(Two), Alpha(Never), Quux { m: bool, z: Tri } }", vec![u8_::<E110>(), u16_::<E110>(), u32_::<E110>(), u64_::<E110>(), u128_::<E110>(), small_::<E110>(), p8_::<E110>(), p16_::<E110>()]));
    v.push(ty::<(E110,)>("(E110,): enum E110 { Mid(Tri), Zed(Two), Alpha(Never), Quux { m: bool, z: Tri } }", vec![u8_::<(E110,)>(), u16_::<(E110,)>(), u32_::<(E110,)>(), u64_::<(E110,)>(), u128_::<(E110,)>(), small_::<(E110,)>(), p8_::<(E110,)>(), p16_::<(E110,)>()]));
    v.push(ty::<E118>("E118: enum E118 { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Two), Quux }", vec![u8_::<E118>(), u16_::<E118>(), u32_::<E118>(), u64_::<E118>(), u128_::<E118>(), small_::<E118>(), p8_::<E118>(), p16_::<E118>()]));
    v.push(ty::<Result<bool, [E118; 1]>>("Result<bool, [E118; 1]>: enum E118 { Mid { m: bool, z: Tri }, Zed(Two), Alpha(Two), Quux }", vec![u8_::<Result<bool, [E118; 1]>>(), u16_::<Result<bool, [E118; 1]>>(), u32_::<Result<bool, [E118; 1]>>(), u64_::<Result<bool, [E118; 1]>>(), u128_::<Result<bool, [E118; 1]>>(), small_::<Result<bool, [E118; 1]>>(), p8_::<Result<bool, [E118; 1]>>(), p16_::<Result<bool, [E118; 1]>>()]));
    v.push(ty::<E126>("E126: enum E126 { Mid(Never), Zed(Two), Alpha(Two), Quux(Never) }", vec![u8_::<E126>(), u16_::<E126>(), u32_::<E126>(), u64_::<E126>(), u128_::<E126>(), small_::<E126>(), p8_::<E126>(), p16_::<E126>()]));
    v.push(ty::<Option<E126>>("Option<E126>: enum E126 { Mid(Never), Zed(Two), Alpha(Two), Quux(Never) }", vec![u8_::<Option<E126>>(), u16_::<Option<E126>>(), u32_::<Option<E126>>(), u64_::<Option<E126>>(), u128_::<Option<E126>>(), small_::<Option<E126>>(), p8_::<Option<E126>>(), p16_::<Option<E126>>()]));
    v.push(ty::<E134>("E134: enum E134 { Mid, Zed, Alpha, Quux(bool, Tri), Beta }", vec![u8_::<E134>(), u16_::<E134>(), u32_::<E134>(), u64_::<E134>(), u128_::<E134>(), small_::<E134>(), p8_::<E134>(), p16_::<E134>()]));
    v.push(ty::<(E134, bool)>("(E134, bool): enum E134 { Mid, Zed, Alpha, Quux(bool, Tri), Beta }", vec![u8_::<(E134, bool)>(), u16_::<(E134, bool)>(), u32_::<(E134, bool)>(), u64_::<(E134, bool)>(), u128_::<(E134, bool)>(), small_::<(E134, bool)>(), p8_::<(E134, bool)>(), p16_::<(E134, bool)>()]));
    v.push(ty::<E142>("E142: enum E142 { Mid(Option<Never>, Result<Tri,bool>), Zed { m: Result<Tri,bool> } }", vec![u8_::<E142>(), u16_::<E142>(), u32_::<E142>(), u64_::<E142>(), u128_::<E142>(), small_::<E142>(), p8_::<E142>(), p16_::<E142>()]));
    v.push(ty::<Result<E142, Tri>>("Result<E142, Tri>: enum E142 { Mid(Option<Never>, Result<Tri,bool>), Zed { m: Result<Tri,bool> } }", vec![u8_::<Result<E142, Tri>>(), u16_::<Result<E142, Tri>>(), u32_::<Result<E142, Tri>>(), u64_::<Result<E142, Tri>>(), u128_::<Result<E142, Tri>>(), small_::<Result<E142, Tri>>(), p8_::<Result<E142, Tri>>(), p16_::<Result<E142, Tri>>()]));
    v.push(ty::<S150>("S150: struct S150 { m: (), z: Five, a: () }", vec![u8_::<S150>(), u16_::<S150>(), u32_::<S150>(), u64_::<S150>(), u128_::<S150>(), small_::<S150>(), p8_::<S150>(), p16_::<S150>()]));
    v.push(ty::<[S150; 2]>("[S150; 2]: struct S150 { m: (), z: Five, a: () }", vec![u8_::<[S150; 2]>(), u16_::<[S150; 2]>(), u32_::<[S150; 2]>(), u64_::<[S150; 2]>(), u128_::<[S150; 2]>(), small_::<[S150; 2]>(), p8_::<[S150; 2]>(), p16_::<[S150; 2]>()]));
    v.push(ty::<S158>("S158: struct S158 { m: Tri, z: bool, a: Five }", vec![u8_::<S158>(), u16_::<S158>(), u32_::<S158>(), u64_::<S158>(), u128_::<S158>(), small_::<S158>(), p8_::<S158>(), p16_::<S158>()]));
    v.push(ty::<Option<(Tri, S158)>>("Option<(Tri, S158)>: struct S158 { m: Tri, z: bool, a: Five }", vec![u8_::<Option<(Tri, S158)>>(), u16_::<Option<(Tri, S158)>>(), u32_::<Option<(Tri, S158)>>(), u64_::<Option<(Tri, S158)>>(), u128_::<Option<(Tri, S158)>>(), small_::<Option<(Tri, S158)>>(), p8_::<Option<(Tri, S158)>>(), p16_::<Option<(Tri, S158)>>()]));
    v.push(ty::<S166>("S166: struct S166 { m: bool, z: (), a: Tri, q: () }", vec![u8_::<S166>(), u16_::<S166>(), u32_::<S166>(), u64_::<S166>(), u128_::<S166>(), small_::<S166>(), p8_::<S166>(), p16_::<S166>()]));
    v.push(ty::<(S166,)>("(S166,): struct S166 { m: bool, z: (), a: Tri, q: () }", vec![u8_::<(S166,)>(), u16_::<(S166,)>(), u32_::<(S166,)>(), u64_::<(S166,)>(), u128_::<(S166,)>(), small_::<(S166,)>(), p8_::<(S166,)>(), p16_::<(S166,)>()]));
    v.push(ty::<S174>("S174: struct S174 { m: [Never;1], z: Tri }", vec![]));
    v.push(ty::<Result<bool, [S174; 1]>>("Result<bool, [S174; 1]>: struct S174 { m: [Never;1], z: Tri }", vec![u8_::<Result<bool, [S174; 1]>>(), u16_::<Result<bool, [S174; 1]>>(), u32_::<Result<bool, [S174; 1]>>(), u64_::<Result<bool, [S174; 1]>>(), u128_::<Result<bool, [S174; 1]>>(), small_::<Result<bool, [S174; 1]>>(), p8_::<Result<bool, [S174; 1]>>(), p16_::<Result<bool, [S174; 1]>>()]));
    v.push(ty::<S182<()>>("S182<()>: struct S182<A> (A) ;", vec![p8_::<S182<()>>(), p16_::<S182<()>>()]));
    v.push(ty::<S182<Never>>("S182<Never>: struct S182<A> (A) ;", vec![]));
    v.push(ty::<Option<S182<Never>>>("Option<S182<Never>>: struct S182<A> (A) ;", vec![p8_::<Option<S182<Never>>>(), p16_::<Option<S182<Never>>>()]));
    v.push(ty::<Five>("Five", vec![u8_::<Five>(), u16_::<Five>(), u32_::<Five>(), u64_::<Five>(), u128_::<Five>(), small_::<Five>(), p8_::<Five>(), p16_::<Five>()]));
    v.push(ty::<((), bool)>("((), bool)", vec![u8_::<((), bool)>(), u16_::<((), bool)>(), u32_::<((), bool)>(), u64_::<((), bool)>(), u128_::<((), bool)>(), small_::<((), bool)>(), p8_::<((), bool)>(), p16_::<((), bool)>()]));
    v.push(ty::<[bool; 0]>("[bool; 0]", vec![p8_::<[bool; 0]>(), p16_::<[bool; 0]>()]));
    v.push(ty::<Result<bool, Five>>("Result<bool, Five>", vec![u8_::<Result<bool, Five>>(), u16_::<Result<bool, Five>>(), u32_::<Result<bool, Five>>(), u64_::<Result<bool, Five>>(), u128_::<Result<bool, Five>>(), small_::<Result<bool, Five>>(), p8_::<Result<bool, Five>>(), p16_::<Result<bool, Five>>()]));
    v.push(ty::<(Tri, Tri)>("(Tri, Tri)", vec![u8_::<(Tri, Tri)>(), u16_::<(Tri, Tri)>(), u32_::<(Tri, Tri)>(), u64_::<(Tri, Tri)>(), u128_::<(Tri, Tri)>(), small_::<(Tri, Tri)>(), p8_::<(Tri, Tri)>(), p16_::<(Tri, Tri)>()]));
    v.push(ty::<Result<Five, ()>>("Result<Five, ()>", vec![u8_::<Result<Five, ()>>(), u16_::<Result<Five, ()>>(), u32_::<Result<Five, ()>>(), u64_::<Result<Five, ()>>(), u128_::<Result<Five, ()>>(), small_::<Result<Five, ()>>(), p8_::<Result<Five, ()>>(), p16_::<Result<Five, ()>>()]));
    v.push(ty::<[Never; 3]>("[Never; 3]", vec![]));
    v.push(ty::<(Never, Five)>("(Never, Five)", vec![]));
    v.push(ty::<Result<D17, bool>>("Result<D17, bool>", vec![u8_::<Result<D17, bool>>(), u16_::<Result<D17, bool>>(), u32_::<Result<D17, bool>>(), u64_::<Result<D17, bool>>(), u128_::<Result<D17, bool>>(), small_::<Result<D17, bool>>(), p8_::<Result<D17, bool>>(), p16_::<Result<D17, bool>>()]));
    v.push(ty::<[((), ()); 2]>("[((), ()); 2]", vec![p8_::<[((), ()); 2]>(), p16_::<[((), ()); 2]>()]));
    v.push(ty::<(Option<bool>, (bool, ()))>("(Option<bool>, (bool, ()))", vec![u8_::<(Option<bool>, (bool, ()))>(), u16_::<(Option<bool>, (bool, ()))>(), u32_::<(Option<bool>, (bool, ()))>(), u64_::<(Option<bool>, (bool, ()))>(), u128_::<(Option<bool>, (bool, ()))>(), small_::<(Option<bool>, (bool, ()))>(), p8_::<(Option<bool>, (bool, ()))>(), p16_::<(Option<bool>, (bool, ()))>()]));
    v.push(ty::<(Result<bool, Tri>, bool, Result<(), ()>)>("(Result<bool, Tri>, bool, Result<(), ()>)", vec![u8_::<(Result<bool, Tri>, bool, Result<(), ()>)>(), u16_::<(Result<bool, Tri>, bool, Result<(), ()>)>(), u32_::<(Result<bool, Tri>, bool, Result<(), ()>)>(), u64_::<(Result<bool, Tri>, bool, Result<(), ()>)>(), u128_::<(Result<bool, Tri>, bool, Result<(), ()>)>(), small_::<(Result<bool, Tri>, bool, Result<(), ()>)>(), p8_::<(Result<bool, Tri>, bool, Result<(), ()>)>(), p16_::<(Result<bool, Tri>, bool, Result<(), ()>)>()]));
    v.push(ty::<Result<(Tri, bool), (D17, bool)>>("Result<(Tri, bool), (D17, bool)>", vec![u8_::<Result<(Tri, bool), (D17, bool)>>(), u16_::<Result<(Tri, bool), (D17, bool)>>(), u32_::<Result<(Tri, bool), (D17, bool)>>(), u64_::<Result<(Tri, bool), (D17, bool)>>(), u128_::<Result<(Tri, bool), (D17, bool)>>(), small_::<Result<(Tri, bool), (D17, bool)>>(), p8_::<Result<(Tri, bool), (D17, bool)>>(), p16_::<Result<(Tri, bool), (D17, bool)>>()]));
    v.push(ty::<Option<[Five; 0]>>("Option<[Five; 0]>", vec![u8_::<Option<[Five; 0]>>(), u16_::<Option<[Five; 0]>>(), u32_::<Option<[Five; 0]>>(), u64_::<Option<[Five; 0]>>(), u128_::<Option<[Five; 0]>>(), small_::<Option<[Five; 0]>>(), p8_::<Option<[Five; 0]>>(), p16_::<Option<[Five; 0]>>()]));
    v.push(ty::<[Result<Five, Five>; 2]>("[Result<Five, Five>; 2]", vec![u8_::<[Result<Five, Five>; 2]>(), u16_::<[Result<Five, Five>; 2]>(), u32_::<[Result<Five, Five>; 2]>(), u64_::<[Result<Five, Five>; 2]>(), u128_::<[Result<Five, Five>; 2]>(), small_::<[Result<Five, Five>; 2]>(), p8_::<[Result<Five, Five>; 2]>(), p16_::<[Result<Five, Five>; 2]>()]));
    v.push(ty::<((Never, Tri), Result<Tri, Tri>)>("((Never, Tri), Result<Tri, Tri>)", vec![]));
    v.push(ty::<(Result<D17, ()>, bool, (bool, Five))>("(Result<D17, ()>, bool, (bool, Five))", vec![u16_::<(Result<D17, ()>, bool, (bool, Five))>(), u32_::<(Result<D17, ()>, bool, (bool, Five))>(), u64_::<(Result<D17, ()>, bool, (bool, Five))>(), u128_::<(Result<D17, ()>, bool, (bool, Five))>(), small_::<(Result<D17, ()>, bool, (bool, Five))>(), p16_::<(Result<D17, ()>, bool, (bool, Five))>()]));
    v.push(ty::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>("(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)", vec![u16_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>(), u32_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>(), u64_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>(), u128_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>(), small_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>(), p16_::<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>()]));
    v.push(ty::<[Tri; 5]>("[Tri; 5]", vec![u8_::<[Tri; 5]>(), u16_::<[Tri; 5]>(), u32_::<[Tri; 5]>(), u64_::<[Tri; 5]>(), u128_::<[Tri; 5]>(), small_::<[Tri; 5]>(), p8_::<[Tri; 5]>(), p16_::<[Tri; 5]>()]));
    v.push(ty::<Option<N32>>("Option<N32>", vec![u64_::<Option<N32>>(), u128_::<Option<N32>>()]));
}
