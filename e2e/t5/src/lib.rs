// generated by tools/gen_e2e.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use e2esut::*;
use enum_like_derive::EnumLike;
#[derive(Clone, Copy, EnumLike)]
pub enum E5  { Mid, Zed, Alpha, Quux, Beta }
impl Spec for E5 {
    fn count() -> u128 { 5u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E5::Mid; } i -= 1;
        if i == 0 { return E5::Zed; } i -= 1;
        if i == 0 { return E5::Alpha; } i -= 1;
        if i == 0 { return E5::Quux; } i -= 1;
        if i == 0 { return E5::Beta; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E5::Mid => 0u128,
            E5::Zed => 1u128,
            E5::Alpha => 2u128,
            E5::Quux => 3u128,
            E5::Beta => 4u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E13  { V256, V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V239, V238, V237, V236, V235, V234, V233, V232, V231, V230, V229, V228, V227, V226, V225, V224, V223, V222, V221, V220, V219, V218, V217, V216, V215, V214, V213, V212, V211, V210, V209, V208, V207, V206, V205, V204, V203, V202, V201, V200, V199, V198, V197, V196, V195, V194, V193, V192, V191, V190, V189, V188, V187, V186, V185, V184, V183, V182, V181, V180, V179, V178, V177, V176, V175, V174, V173, V172, V171, V170, V169, V168, V167, V166, V165, V164, V163, V162, V161, V160, V159, V158, V157, V156, V155, V154, V153, V152, V151, V150, V149, V148, V147, V146, V145, V144, V143, V142, V141, V140, V139, V138, V137, V136, V135, V134, V133, V132, V131, V130, V129, V128, V127, V126, V125, V124, V123, V122, V121, V120, V119, V118, V117, V116, V115, V114, V113, V112, V111, V110, V109, V108, V107, V106, V105, V104, V103, V102, V101, V100, V99, V98, V97, V96, V95, V94, V93, V92, V91, V90, V89, V88, V87, V86, V85, V84, V83, V82, V81, V80, V79, V78, V77, V76, V75, V74, V73, V72, V71, V70, V69, V68, V67, V66, V65, V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43, V42, V41, V40, V39, V38, V37, V36, V35, V34, V33, V32, V31, V30, V29, V28, V27, V26, V25, V24, V23, V22, V21, V20, V19, V18, V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E13 {
    fn count() -> u128 { 256u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E13::V256; } i -= 1;
        if i == 0 { return E13::V255; } i -= 1;
        if i == 0 { return E13::V254; } i -= 1;
        if i == 0 { return E13::V253; } i -= 1;
        if i == 0 { return E13::V252; } i -= 1;
        if i == 0 { return E13::V251; } i -= 1;
        if i == 0 { return E13::V250; } i -= 1;
        if i == 0 { return E13::V249; } i -= 1;
        if i == 0 { return E13::V248; } i -= 1;
        if i == 0 { return E13::V247; } i -= 1;
        if i == 0 { return E13::V246; } i -= 1;
        if i == 0 { return E13::V245; } i -= 1;
        if i == 0 { return E13::V244; } i -= 1;
        if i == 0 { return E13::V243; } i -= 1;
        if i == 0 { return E13::V242; } i -= 1;
        if i == 0 { return E13::V241; } i -= 1;
        if i == 0 { return E13::V240; } i -= 1;
        if i == 0 { return E13::V239; } i -= 1;
        if i == 0 { return E13::V238; } i -= 1;
        if i == 0 { return E13::V237; } i -= 1;
        if i == 0 { return E13::V236; } i -= 1;
        if i == 0 { return E13::V235; } i -= 1;
        if i == 0 { return E13::V234; } i -= 1;
        if i == 0 { return E13::V233; } i -= 1;
        if i == 0 { return E13::V232; } i -= 1;
        if i == 0 { return E13::V231; } i -= 1;
        if i == 0 { return E13::V230; } i -= 1;
        if i == 0 { return E13::V229; } i -= 1;
        if i == 0 { return E13::V228; } i -= 1;
        if i == 0 { return E13::V227; } i -= 1;
        if i == 0 { return E13::V226; } i -= 1;
        if i == 0 { return E13::V225; } i -= 1;
        if i == 0 { return E13::V224; } i -= 1;
        if i == 0 { return E13::V223; } i -= 1;
        if i == 0 { return E13::V222; } i -= 1;
        if i == 0 { return E13::V221; } i -= 1;
        if i == 0 { return E13::V220; } i -= 1;
        if i == 0 { return E13::V219; } i -= 1;
        if i == 0 { return E13::V218; } i -= 1;
        if i == 0 { return E13::V217; } i -= 1;
        if i == 0 { return E13::V216; } i -= 1;
        if i == 0 { return E13::V215; } i -= 1;
        if i == 0 { return E13::V214; } i -= 1;
        if i == 0 { return E13::V213; } i -= 1;
        if i == 0 { return E13::V212; } i -= 1;
        if i == 0 { return E13::V211; } i -= 1;
        if i == 0 { return E13::V210; } i -= 1;
        if i == 0 { return E13::V209; } i -= 1;
        if i == 0 { return E13::V208; } i -= 1;
        if i == 0 { return E13::V207; } i -= 1;
        if i == 0 { return E13::V206; } i -= 1;
        if i == 0 { return E13::V205; } i -= 1;
        if i == 0 { return E13::V204; } i -= 1;
        if i == 0 { return E13::V203; } i -= 1;
        if i == 0 { return E13::V202; } i -= 1;
        if i == 0 { return E13::V201; } i -= 1;
        if i == 0 { return E13::V200; } i -= 1;
        if i == 0 { return E13::V199; } i -= 1;
        if i == 0 { return E13::V198; } i -= 1;
        if i == 0 { return E13::V197; } i -= 1;
        if i == 0 { return E13::V196; } i -= 1;
        if i == 0 { return E13::V195; } i -= 1;
        if i == 0 { return E13::V194; } i -= 1;
        if i == 0 { return E13::V193; } i -= 1;
        if i == 0 { return E13::V192; } i -= 1;
        if i == 0 { return E13::V191; } i -= 1;
        if i == 0 { return E13::V190; } i -= 1;
        if i == 0 { return E13::V189; } i -= 1;
        if i == 0 { return E13::V188; } i -= 1;
        if i == 0 { return E13::V187; } i -= 1;
        if i == 0 { return E13::V186; } i -= 1;
        if i == 0 { return E13::V185; } i -= 1;
        if i == 0 { return E13::V184; } i -= 1;
        if i == 0 { return E13::V183; } i -= 1;
        if i == 0 { return E13::V182; } i -= 1;
        if i == 0 { return E13::V181; } i -= 1;
        if i == 0 { return E13::V180; } i -= 1;
        if i == 0 { return E13::V179; } i -= 1;
        if i == 0 { return E13::V178; } i -= 1;
        if i == 0 { return E13::V177; } i -= 1;
        if i == 0 { return E13::V176; } i -= 1;
        if i == 0 { return E13::V175; } i -= 1;
        if i == 0 { return E13::V174; } i -= 1;
        if i == 0 { return E13::V173; } i -= 1;
        if i == 0 { return E13::V172; } i -= 1;
        if i == 0 { return E13::V171; } i -= 1;
        if i == 0 { return E13::V170; } i -= 1;
        if i == 0 { return E13::V169; } i -= 1;
        if i == 0 { return E13::V168; } i -= 1;
        if i == 0 { return E13::V167; } i -= 1;
        if i == 0 { return E13::V166; } i -= 1;
        if i == 0 { return E13::V165; } i -= 1;
        if i == 0 { return E13::V164; } i -= 1;
        if i == 0 { return E13::V163; } i -= 1;
        if i == 0 { return E13::V162; } i -= 1;
        if i == 0 { return E13::V161; } i -= 1;
        if i == 0 { return E13::V160; } i -= 1;
        if i == 0 { return E13::V159; } i -= 1;
        if i == 0 { return E13::V158; } i -= 1;
        if i == 0 { return E13::V157; } i -= 1;
        if i == 0 { return E13::V156; } i -= 1;
        if i == 0 { return E13::V155; } i -= 1;
        if i == 0 { return E13::V154; } i -= 1;
        if i == 0 { return E13::V153; } i -= 1;
        if i == 0 { return E13::V152; } i -= 1;
        if i == 0 { return E13::V151; } i -= 1;
        if i == 0 { return E13::V150; } i -= 1;
        if i == 0 { return E13::V149; } i -= 1;
        if i == 0 { return E13::V148; } i -= 1;
        if i == 0 { return E13::V147; } i -= 1;
        if i == 0 { return E13::V146; } i -= 1;
        if i == 0 { return E13::V145; } i -= 1;
        if i == 0 { return E13::V144; } i -= 1;
        if i == 0 { return E13::V143; } i -= 1;
        if i == 0 { return E13::V142; } i -= 1;
        if i == 0 { return E13::V141; } i -= 1;
        if i == 0 { return E13::V140; } i -= 1;
        if i == 0 { return E13::V139; } i -= 1;
        if i == 0 { return E13::V138; } i -= 1;
        if i == 0 { return E13::V137; } i -= 1;
        if i == 0 { return E13::V136; } i -= 1;
        if i == 0 { return E13::V135; } i -= 1;
        if i == 0 { return E13::V134; } i -= 1;
        if i == 0 { return E13::V133; } i -= 1;
        if i == 0 { return E13::V132; } i -= 1;
        if i == 0 { return E13::V131; } i -= 1;
        if i == 0 { return E13::V130; } i -= 1;
        if i == 0 { return E13::V129; } i -= 1;
        if i == 0 { return E13::V128; } i -= 1;
        if i == 0 { return E13::V127; } i -= 1;
        if i == 0 { return E13::V126; } i -= 1;
        if i == 0 { return E13::V125; } i -= 1;
        if i == 0 { return E13::V124; } i -= 1;
        if i == 0 { return E13::V123; } i -= 1;
        if i == 0 { return E13::V122; } i -= 1;
        if i == 0 { return E13::V121; } i -= 1;
        if i == 0 { return E13::V120; } i -= 1;
        if i == 0 { return E13::V119; } i -= 1;
        if i == 0 { return E13::V118; } i -= 1;
        if i == 0 { return E13::V117; } i -= 1;
        if i == 0 { return E13::V116; } i -= 1;
        if i == 0 { return E13::V115; } i -= 1;
        if i == 0 { return E13::V114; } i -= 1;
        if i == 0 { return E13::V113; } i -= 1;
        if i == 0 { return E13::V112; } i -= 1;
        if i == 0 { return E13::V111; } i -= 1;
        if i == 0 { return E13::V110; } i -= 1;
        if i == 0 { return E13::V109; } i -= 1;
        if i == 0 { return E13::V108; } i -= 1;
        if i == 0 { return E13::V107; } i -= 1;
        if i == 0 { return E13::V106; } i -= 1;
        if i == 0 { return E13::V105; } i -= 1;
        if i == 0 { return E13::V104; } i -= 1;
        if i == 0 { return E13::V103; } i -= 1;
        if i == 0 { return E13::V102; } i -= 1;
        if i == 0 { return E13::V101; } i -= 1;
        if i == 0 { return E13::V100; } i -= 1;
        if i == 0 { return E13::V99; } i -= 1;
        if i == 0 { return E13::V98; } i -= 1;
        if i == 0 { return E13::V97; } i -= 1;
        if i == 0 { return E13::V96; } i -= 1;
        if i == 0 { return E13::V95; } i -= 1;
        if i == 0 { return E13::V94; } i -= 1;
        if i == 0 { return E13::V93; } i -= 1;
        if i == 0 { return E13::V92; } i -= 1;
        if i == 0 { return E13::V91; } i -= 1;
        if i == 0 { return E13::V90; } i -= 1;
        if i == 0 { return E13::V89; } i -= 1;
        if i == 0 { return E13::V88; } i -= 1;
        if i == 0 { return E13::V87; } i -= 1;
        if i == 0 { return E13::V86; } i -= 1;
        if i == 0 { return E13::V85; } i -= 1;
        if i == 0 { return E13::V84; } i -= 1;
        if i == 0 { return E13::V83; } i -= 1;
        if i == 0 { return E13::V82; } i -= 1;
        if i == 0 { return E13::V81; } i -= 1;
        if i == 0 { return E13::V80; } i -= 1;
        if i == 0 { return E13::V79; } i -= 1;
        if i == 0 { return E13::V78; } i -= 1;
        if i == 0 { return E13::V77; } i -= 1;
        if i == 0 { return E13::V76; } i -= 1;
        if i == 0 { return E13::V75; } i -= 1;
        if i == 0 { return E13::V74; } i -= 1;
        if i == 0 { return E13::V73; } i -= 1;
        if i == 0 { return E13::V72; } i -= 1;
        if i == 0 { return E13::V71; } i -= 1;
        if i == 0 { return E13::V70; } i -= 1;
        if i == 0 { return E13::V69; } i -= 1;
        if i == 0 { return E13::V68; } i -= 1;
        if i == 0 { return E13::V67; } i -= 1;
        if i == 0 { return E13::V66; } i -= 1;
        if i == 0 { return E13::V65; } i -= 1;
        if i == 0 { return E13::V64; } i -= 1;
        if i == 0 { return E13::V63; } i -= 1;
        if i == 0 { return E13::V62; } i -= 1;
        if i == 0 { return E13::V61; } i -= 1;
        if i == 0 { return E13::V60; } i -= 1;
        if i == 0 { return E13::V59; } i -= 1;
        if i == 0 { return E13::V58; } i -= 1;
        if i == 0 { return E13::V57; } i -= 1;
        if i == 0 { return E13::V56; } i -= 1;
        if i == 0 { return E13::V55; } i -= 1;
        if i == 0 { return E13::V54; } i -= 1;
        if i == 0 { return E13::V53; } i -= 1;
        if i == 0 { return E13::V52; } i -= 1;
        if i == 0 { return E13::V51; } i -= 1;
        if i == 0 { return E13::V50; } i -= 1;
        if i == 0 { return E13::V49; } i -= 1;
        if i == 0 { return E13::V48; } i -= 1;
        if i == 0 { return E13::V47; } i -= 1;
        if i == 0 { return E13::V46; } i -= 1;
        if i == 0 { return E13::V45; } i -= 1;
        if i == 0 { return E13::V44; } i -= 1;
        if i == 0 { return E13::V43; } i -= 1;
        if i == 0 { return E13::V42; } i -= 1;
        if i == 0 { return E13::V41; } i -= 1;
        if i == 0 { return E13::V40; } i -= 1;
        if i == 0 { return E13::V39; } i -= 1;
        if i == 0 { return E13::V38; } i -= 1;
        if i == 0 { return E13::V37; } i -= 1;
        if i == 0 { return E13::V36; } i -= 1;
        if i == 0 { return E13::V35; } i -= 1;
        if i == 0 { return E13::V34; } i -= 1;
        if i == 0 { return E13::V33; } i -= 1;
        if i == 0 { return E13::V32; } i -= 1;
        if i == 0 { return E13::V31; } i -= 1;
        if i == 0 { return E13::V30; } i -= 1;
        if i == 0 { return E13::V29; } i -= 1;
        if i == 0 { return E13::V28; } i -= 1;
        if i == 0 { return E13::V27; } i -= 1;
        if i == 0 { return E13::V26; } i -= 1;
        if i == 0 { return E13::V25; } i -= 1;
        if i == 0 { return E13::V24; } i -= 1;
        if i == 0 { return E13::V23; } i -= 1;
        if i == 0 { return E13::V22; } i -= 1;
        if i == 0 { return E13::V21; } i -= 1;
        if i == 0 { return E13::V20; } i -= 1;
        if i == 0 { return E13::V19; } i -= 1;
        if i == 0 { return E13::V18; } i -= 1;
        if i == 0 { return E13::V17; } i -= 1;
        if i == 0 { return E13::V16; } i -= 1;
        if i == 0 { return E13::V15; } i -= 1;
        if i == 0 { return E13::V14; } i -= 1;
        if i == 0 { return E13::V13; } i -= 1;
        if i == 0 { return E13::V12; } i -= 1;
        if i == 0 { return E13::V11; } i -= 1;
        if i == 0 { return E13::V10; } i -= 1;
        if i == 0 { return E13::V9; } i -= 1;
        if i == 0 { return E13::V8; } i -= 1;
        if i == 0 { return E13::V7; } i -= 1;
        if i == 0 { return E13::V6; } i -= 1;
        if i == 0 { return E13::V5; } i -= 1;
        if i == 0 { return E13::V4; } i -= 1;
        if i == 0 { return E13::V3; } i -= 1;
        if i == 0 { return E13::V2; } i -= 1;
        if i == 0 { return E13::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E13::V256 => 0u128,
            E13::V255 => 1u128,
            E13::V254 => 2u128,
            E13::V253 => 3u128,
            E13::V252 => 4u128,
            E13::V251 => 5u128,
            E13::V250 => 6u128,
            E13::V249 => 7u128,
            E13::V248 => 8u128,
            E13::V247 => 9u128,
            E13::V246 => 10u128,
            E13::V245 => 11u128,
            E13::V244 => 12u128,
            E13::V243 => 13u128,
            E13::V242 => 14u128,
            E13::V241 => 15u128,
            E13::V240 => 16u128,
            E13::V239 => 17u128,
            E13::V238 => 18u128,
            E13::V237 => 19u128,
            E13::V236 => 20u128,
            E13::V235 => 21u128,
            E13::V234 => 22u128,
            E13::V233 => 23u128,
            E13::V232 => 24u128,
            E13::V231 => 25u128,
            E13::V230 => 26u128,
            E13::V229 => 27u128,
            E13::V228 => 28u128,
            E13::V227 => 29u128,
            E13::V226 => 30u128,
            E13::V225 => 31u128,
            E13::V224 => 32u128,
            E13::V223 => 33u128,
            E13::V222 => 34u128,
            E13::V221 => 35u128,
            E13::V220 => 36u128,
            E13::V219 => 37u128,
            E13::V218 => 38u128,
            E13::V217 => 39u128,
            E13::V216 => 40u128,
            E13::V215 => 41u128,
            E13::V214 => 42u128,
            E13::V213 => 43u128,
            E13::V212 => 44u128,
            E13::V211 => 45u128,
            E13::V210 => 46u128,
            E13::V209 => 47u128,
            E13::V208 => 48u128,
            E13::V207 => 49u128,
            E13::V206 => 50u128,
            E13::V205 => 51u128,
            E13::V204 => 52u128,
            E13::V203 => 53u128,
            E13::V202 => 54u128,
            E13::V201 => 55u128,
            E13::V200 => 56u128,
            E13::V199 => 57u128,
            E13::V198 => 58u128,
            E13::V197 => 59u128,
            E13::V196 => 60u128,
            E13::V195 => 61u128,
            E13::V194 => 62u128,
            E13::V193 => 63u128,
            E13::V192 => 64u128,
            E13::V191 => 65u128,
            E13::V190 => 66u128,
            E13::V189 => 67u128,
            E13::V188 => 68u128,
            E13::V187 => 69u128,
            E13::V186 => 70u128,
            E13::V185 => 71u128,
            E13::V184 => 72u128,
            E13::V183 => 73u128,
            E13::V182 => 74u128,
            E13::V181 => 75u128,
            E13::V180 => 76u128,
            E13::V179 => 77u128,
            E13::V178 => 78u128,
            E13::V177 => 79u128,
            E13::V176 => 80u128,
            E13::V175 => 81u128,
            E13::V174 => 82u128,
            E13::V173 => 83u128,
            E13::V172 => 84u128,
            E13::V171 => 85u128,
            E13::V170 => 86u128,
            E13::V169 => 87u128,
            E13::V168 => 88u128,
            E13::V167 => 89u128,
            E13::V166 => 90u128,
            E13::V165 => 91u128,
            E13::V164 => 92u128,
            E13::V163 => 93u128,
            E13::V162 => 94u128,
            E13::V161 => 95u128,
            E13::V160 => 96u128,
            E13::V159 => 97u128,
            E13::V158 => 98u128,
            E13::V157 => 99u128,
            E13::V156 => 100u128,
            E13::V155 => 101u128,
            E13::V154 => 102u128,
            E13::V153 => 103u128,
            E13::V152 => 104u128,
            E13::V151 => 105u128,
            E13::V150 => 106u128,
            E13::V149 => 107u128,
            E13::V148 => 108u128,
            E13::V147 => 109u128,
            E13::V146 => 110u128,
            E13::V145 => 111u128,
            E13::V144 => 112u128,
            E13::V143 => 113u128,
            E13::V142 => 114u128,
            E13::V141 => 115u128,
            E13::V140 => 116u128,
            E13::V139 => 117u128,
            E13::V138 => 118u128,
            E13::V137 => 119u128,
            E13::V136 => 120u128,
            E13::V135 => 121u128,
            E13::V134 => 122u128,
            E13::V133 => 123u128,
            E13::V132 => 124u128,
            E13::V131 => 125u128,
            E13::V130 => 126u128,
            E13::V129 => 127u128,
            E13::V128 => 128u128,
            E13::V127 => 129u128,
            E13::V126 => 130u128,
            E13::V125 => 131u128,
            E13::V124 => 132u128,
            E13::V123 => 133u128,
            E13::V122 => 134u128,
            E13::V121 => 135u128,
            E13::V120 => 136u128,
            E13::V119 => 137u128,
            E13::V118 => 138u128,
            E13::V117 => 139u128,
            E13::V116 => 140u128,
            E13::V115 => 141u128,
            E13::V114 => 142u128,
            E13::V113 => 143u128,
            E13::V112 => 144u128,
            E13::V111 => 145u128,
            E13::V110 => 146u128,
            E13::V109 => 147u128,
            E13::V108 => 148u128,
            E13::V107 => 149u128,
            E13::V106 => 150u128,
            E13::V105 => 151u128,
            E13::V104 => 152u128,
            E13::V103 => 153u128,
            E13::V102 => 154u128,
            E13::V101 => 155u128,
            E13::V100 => 156u128,
            E13::V99 => 157u128,
            E13::V98 => 158u128,
            E13::V97 => 159u128,
            E13::V96 => 160u128,
            E13::V95 => 161u128,
            E13::V94 => 162u128,
            E13::V93 => 163u128,
            E13::V92 => 164u128,
            E13::V91 => 165u128,
            E13::V90 => 166u128,
            E13::V89 => 167u128,
            E13::V88 => 168u128,
            E13::V87 => 169u128,
            E13::V86 => 170u128,
            E13::V85 => 171u128,
            E13::V84 => 172u128,
            E13::V83 => 173u128,
            E13::V82 => 174u128,
            E13::V81 => 175u128,
            E13::V80 => 176u128,
            E13::V79 => 177u128,
            E13::V78 => 178u128,
            E13::V77 => 179u128,
            E13::V76 => 180u128,
            E13::V75 => 181u128,
            E13::V74 => 182u128,
            E13::V73 => 183u128,
            E13::V72 => 184u128,
            E13::V71 => 185u128,
            E13::V70 => 186u128,
            E13::V69 => 187u128,
            E13::V68 => 188u128,
            E13::V67 => 189u128,
            E13::V66 => 190u128,
            E13::V65 => 191u128,
            E13::V64 => 192u128,
            E13::V63 => 193u128,
            E13::V62 => 194u128,
            E13::V61 => 195u128,
            E13::V60 => 196u128,
            E13::V59 => 197u128,
            E13::V58 => 198u128,
            E13::V57 => 199u128,
            E13::V56 => 200u128,
            E13::V55 => 201u128,
            E13::V54 => 202u128,
            E13::V53 => 203u128,
            E13::V52 => 204u128,
            E13::V51 => 205u128,
            E13::V50 => 206u128,
            E13::V49 => 207u128,
            E13::V48 => 208u128,
            E13::V47 => 209u128,
            E13::V46 => 210u128,
            E13::V45 => 211u128,
            E13::V44 => 212u128,
            E13::V43 => 213u128,
            E13::V42 => 214u128,
            E13::V41 => 215u128,
            E13::V40 => 216u128,
            E13::V39 => 217u128,
            E13::V38 => 218u128,
            E13::V37 => 219u128,
            E13::V36 => 220u128,
            E13::V35 => 221u128,
            E13::V34 => 222u128,
            E13::V33 => 223u128,
            E13::V32 => 224u128,
            E13::V31 => 225u128,
            E13::V30 => 226u128,
            E13::V29 => 227u128,
            E13::V28 => 228u128,
            E13::V27 => 229u128,
            E13::V26 => 230u128,
            E13::V25 => 231u128,
            E13::V24 => 232u128,
            E13::V23 => 233u128,
            E13::V22 => 234u128,
            E13::V21 => 235u128,
            E13::V20 => 236u128,
            E13::V19 => 237u128,
            E13::V18 => 238u128,
            E13::V17 => 239u128,
            E13::V16 => 240u128,
            E13::V15 => 241u128,
            E13::V14 => 242u128,
            E13::V13 => 243u128,
            E13::V12 => 244u128,
            E13::V11 => 245u128,
            E13::V10 => 246u128,
            E13::V9 => 247u128,
            E13::V8 => 248u128,
            E13::V7 => 249u128,
            E13::V6 => 250u128,
            E13::V5 => 251u128,
            E13::V4 => 252u128,
            E13::V3 => 253u128,
            E13::V2 => 254u128,
            E13::V1 => 255u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E21  { Mid(bool, Tri, ()) }
impl Spec for E21 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return E21::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E21::Mid(f0, f1, f2) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E29  { Mid(bool, Tri), Zed(Tri) }
impl Spec for E29 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E29::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E29::Zed(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E29::Mid(f0, f1) => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E29::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E37  { Mid, Zed(Tri, Two, Tri), Alpha { m: Tri } }
impl Spec for E37 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E37::Mid; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E37::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E37::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E37::Mid => 0u128,
            E37::Zed(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E37::Alpha { m: f0 } => 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E45  { Mid(Never), Zed, Alpha(bool) }
impl Spec for E45 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E45::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E45::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E45::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E45::Zed => 0u128,
            E45::Mid(f0) => 1u128 + f0.index(),
            E45::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E53  { Mid { m: Tri }, Zed(Never), Alpha(Option<bool>) }
impl Spec for E53 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E53::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E53::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E53::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E53::Mid { m: f0 } => 0u128 + f0.index(),
            E53::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E53::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E61  { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }
impl Spec for E61 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E61::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E61::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E61::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E61::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E61::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E61::Alpha(f0, f1, f2) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E69  { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }
impl Spec for E69 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E69::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E69::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E69::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E69::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E69::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E69::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E77  { Mid(Tri, Two, Tri), Zed(bool), Alpha { m: Tri } }
impl Spec for E77 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E77::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E77::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E77::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E77::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E77::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E77::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E85  { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha(bool) }
impl Spec for E85 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E85::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E85::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E85::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E85::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E85::Zed(f0, f1) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E85::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E93  { Mid(Option<bool>), Zed(()), Alpha(Option<bool>) }
impl Spec for E93 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E93::Mid(f0); } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E93::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E93::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E93::Mid(f0) => 0u128 + f0.index(),
            E93::Zed(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index(),
            E93::Alpha(f0) => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E101  { Mid, Zed(Never), Alpha(Two), Quux(Never) }
impl Spec for E101 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E101::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E101::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E101::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E101::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E101::Mid => 0u128,
            E101::Zed(f0) => 1u128 + f0.index(),
            E101::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E101::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E109  { Mid(Tri), Zed(Two), Alpha, Quux(Tri) }
impl Spec for E109 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E109::Alpha; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E109::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E109::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E109::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E109::Alpha => 0u128,
            E109::Mid(f0) => 1u128 + f0.index(),
            E109::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E109::Quux(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E117  { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux(Two) }
impl Spec for E117 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E117::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E117::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E117::Zed(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E117::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E117::Alpha => 0u128,
            E117::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E117::Zed(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E117::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E125  { Mid(Never), Zed(Two), Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E125 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E125::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E125::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E125::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E125::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E125::Mid(f0) => 0u128 + f0.index(),
            E125::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E125::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index(),
            E125::Quux { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E133  { Mid(Two), Zed(Two), Alpha { m: bool, z: Tri }, Quux }
impl Spec for E133 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E133::Quux; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E133::Mid(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E133::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E133::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E133::Quux => 0u128,
            E133::Mid(f0) => 1u128 + f0.index(),
            E133::Zed(f0) => 1u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E133::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E141  { Mid([bool;2], (bool,Tri)), Zed { m: (bool,Tri) } }
impl Spec for E141 {
    fn count() -> u128 { 0u128 + 1u128 * <[bool;2] as Spec>::count() * <(bool,Tri) as Spec>::count() + 1u128 * <(bool,Tri) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[bool;2] as Spec>::count() * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[bool;2]>(&mut r); let f1 = pick::<(bool,Tri)>(&mut r); return E141::Mid(f0, f1); } i -= c;
        let c = 1u128 * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(bool,Tri)>(&mut r); return E141::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E141::Mid(f0, f1) => 0u128 + f0.index() + <[bool;2] as Spec>::count() * f1.index(),
            E141::Zed { m: f0 } => 0u128 + 1u128 * <[bool;2] as Spec>::count() * <(bool,Tri) as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S149   { m: (), z: Never, a: Never }
impl Spec for S149 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Never as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Never>(&mut r); let f2 = pick::<Never>(&mut r); return S149 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S149 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Never as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S157   { m: Tri, z: (), a: bool }
impl Spec for S157 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<bool>(&mut r); return S157 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S157 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S165   { m: bool, z: Tri, a: (), q: bool }
impl Spec for S165 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<bool>(&mut r); return S165 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S165 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index() + <bool as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S173 ((bool,Tri)) ;
impl Spec for S173 {
    fn count() -> u128 { 0u128 + 1u128 * <(bool,Tri) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <(bool,Tri) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(bool,Tri)>(&mut r); return S173(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S173(f0) => 0u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E181<A: Clone + 'static>  { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }
impl<A: Spec> Spec for E181<A> {
    fn count() -> u128 { 1u128 + 1u128 * <Option<A> as Spec>::count() + 1u128 * <(A,bool) as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E181::Alpha; } i -= 1;
        let c = 1u128 * <Option<A> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<A>>(&mut r); return E181::Mid(f0); } i -= c;
        let c = 1u128 * <(A,bool) as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<(A,bool)>(&mut r); return E181::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E181::Alpha => 0u128,
            E181::Mid(f0) => 1u128 + f0.index(),
            E181::Zed { m: f0 } => 1u128 + 1u128 * <Option<A> as Spec>::count() + f0.index(),
        }
    }
}
pub fn all(v: &mut Vec<Ty>) {
    v.push(ty::<E5>("E5: enum E5 { Mid, Zed, Alpha, Quux, Beta }", vec![u8_::<E5>(), u16_::<E5>(), u32_::<E5>(), u64_::<E5>(), u128_::<E5>(), small_::<E5>(), p8_::<E5>(), p16_::<E5>()]));
    v.push(ty::<(E5,)>("(E5,): enum E5 { Mid, Zed, Alpha, Quux, Beta }", vec![u8_::<(E5,)>(), u16_::<(E5,)>(), u32_::<(E5,)>(), u64_::<(E5,)>(), u128_::<(E5,)>(), small_::<(E5,)>(), p8_::<(E5,)>(), p16_::<(E5,)>()]));
    v.push(ty::<E13>("E13: enum E13 { V256, V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V239, V", vec![u8_::<E13>(), u16_::<E13>(), u32_::<E13>(), u64_::<E13>(), u128_::<E13>(), small_::<E13>(), p8_::<E13>(), p16_::<E13>()]));
    v.push(ty::<Result<bool, [E13; 1]>>("Result<bool, [E13; 1]>: enum E13 { V256, V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V239, V", vec![u16_::<Result<bool, [E13; 1]>>(), u32_::<Result<bool, [E13; 1]>>(), u64_::<Result<bool, [E13; 1]>>(), u128_::<Result<bool, [E13; 1]>>(), small_::<Result<bool, [E13; 1]>>(), p16_::<Result<bool, [E13; 1]>>()]));
    v.push(ty::<E21>("E21: enum E21 { Mid(bool, Tri, ()) }", vec![u8_::<E21>(), u16_::<E21>(), u32_::<E21>(), u64_::<E21>(), u128_::<E21>(), small_::<E21>(), p8_::<E21>(), p16_::<E21>()]));
    v.push(ty::<Option<E21>>("Option<E21>: enum E21 { Mid(bool, Tri, ()) }", vec![u8_::<Option<E21>>(), u16_::<Option<E21>>(), u32_::<Option<E21>>(), u64_::<Option<E21>>(), u128_::<Option<E21>>(), small_::<Option<E21>>(), p8_::<Option<E21>>(), p16_::<Option<E21>>()]));
    v.push(ty::<E29>("E29: enum E29 { Mid(bool, Tri), Zed(Tri) }", vec![u8_::<E29>(), u16_::<E29>(), u32_::<E29>(), u64_::<E29>(), u128_::<E29>(), small_::<E29>(), p8_::<E29>(), p16_::<E29>()]));
    v.push(ty::<(E29, bool)>("(E29, bool): enum E29 { Mid(bool, Tri), Zed(Tri) }", vec![u8_::<(E29, bool)>(), u16_::<(E29, bool)>(), u32_::<(E29, bool)>(), u64_::<(E29, bool)>(), u128_::<(E29, bool)>(), small_::<(E29, bool)>(), p8_::<(E29, bool)>(), p16_::<(E29, bool)>()]));
    v.push(ty::<E37>("E37: enum E37 { Mid, Zed(Tri, Two, Tri), Alpha { m: Tri } }", vec![u8_::<E37>(), u16_::<E37>(), u32_::<E37>(), u64_::<E37>(), u128_::<E37>(), small_::<E37>(), p8_::<E37>(), p16_::<E37>()]));
    v.push(ty::<Result<E37, Tri>>("Result<E37, Tri>: enum E37 { Mid, Zed(Tri, Two, Tri), Alpha { m: Tri } }", vec![u8_::<Result<E37, Tri>>(), u16_::<Result<E37, Tri>>(), u32_::<Result<E37, Tri>>(), u64_::<Result<E37, Tri>>(), u128_::<Result<E37, Tri>>(), small_::<Result<E37, Tri>>(), p8_::<Result<E37, Tri>>(), p16_::<Result<E37, Tri>>()]));
    v.push(ty::<E45>("E45: enum E45 { Mid(Never), Zed, Alpha(bool) }", vec![u8_::<E45>(), u16_::<E45>(), u32_::<E45>(), u64_::<E45>(), u128_::<E45>(), small_::<E45>(), p8_::<E45>(), p16_::<E45>()]));
    v.push(ty::<[E45; 2]>("[E45; 2]: enum E45 { Mid(Never), Zed, Alpha(bool) }", vec![u8_::<[E45; 2]>(), u16_::<[E45; 2]>(), u32_::<[E45; 2]>(), u64_::<[E45; 2]>(), u128_::<[E45; 2]>(), small_::<[E45; 2]>(), p8_::<[E45; 2]>(), p16_::<[E45; 2]>()]));
    v.push(ty::<E53>("E53: enum E53 { Mid { m: Tri }, Zed(Never), Alpha(Option<bool>) }", vec![u8_::<E53>(), u16_::<E53>(), u32_::<E53>(), u64_::<E53>(), u128_::<E53>(), small_::<E53>(), p8_::<E53>(), p16_::<E53>()]));
    v.push(ty::<Option<(Tri, E53)>>("Option<(Tri, E53)>: enum E53 { Mid { m: Tri }, Zed(Never), Alpha(Option<bool>) }", vec![u8_::<Option<(Tri, E53)>>(), u16_::<Option<(Tri, E53)>>(), u32_::<Option<(Tri, E53)>>(), u64_::<Option<(Tri, E53)>>(), u128_::<Option<(Tri, E53)>>(), small_::<Option<(Tri, E53)>>(), p8_::<Option<(Tri, E53)>>(), p16_::<Option<(Tri, E53)>>()]));
    v.push(ty::<E61>("E61: enum E61 { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<E61>(), u16_::<E61>(), u32_::<E61>(), u64_::<E61>(), u128_::<E61>(), small_::<E61>(), p8_::<E61>(), p16_::<E61>()]));
    v.push(ty::<(E61,)>("(E61,): enum E61 { Mid(Tri, bool), Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<(E61,)>(), u16_::<(E61,)>(), u32_::<(E61,)>(), u64_::<(E61,)>(), u128_::<(E61,)>(), small_::<(E61,)>(), p8_::<(E61,)>(), p16_::<(E61,)>()]));
    v.push(ty::<E69>("E69: enum E69 { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }", vec![u8_::<E69>(), u16_::<E69>(), u32_::<E69>(), u64_::<E69>(), u128_::<E69>(), small_::<E69>(), p8_::<E69>(), p16_::<E69>()]));
    v.push(ty::<Result<bool, [E69; 1]>>("Result<bool, [E69; 1]>: enum E69 { Mid { m: bool, z: Tri }, Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }", vec![u8_::<Result<bool, [E69; 1]>>(), u16_::<Result<bool, [E69; 1]>>(), u32_::<Result<bool, [E69; 1]>>(), u64_::<Result<bool, [E69; 1]>>(), u128_::<Result<bool, [E69; 1]>>(), small_::<Result<bool, [E69; 1]>>(), p8_::<Result<bool, [E69; 1]>>(), p16_::<Result<bool, [E69; 1]>>()]));
    v.push(ty::<E77>("E77: enum E77 { Mid(Tri, Two, Tri), Zed(bool), Alpha { m: Tri } }", vec![u8_::<E77>(), u16_::<E77>(), u32_::<E77>(), u64_::<E77>(), u128_::<E77>(), small_::<E77>(), p8_::<E77>(), p16_::<E77>()]));
    v.push(ty::<Option<E77>>("Option<E77>: enum E77 { Mid(Tri, Two, Tri), Zed(bool), Alpha { m: Tri } }", vec![u8_::<Option<E77>>(), u16_::<Option<E77>>(), u32_::<Option<E77>>(), u64_::<Option<E77>>(), u128_::<Option<E77>>(), small_::<Option<E77>>(), p8_::<Option<E77>>(), p16_::<Option<E77>>()]));
    v.push(ty::<E85>("E85: enum E85 { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha(bool) }", vec![u8_::<E85>(), u16_::<E85>(), u32_::<E85>(), u64_::<E85>(), u128_::<E85>(), small_::<E85>(), p8_::<E85>(), p16_::<E85>()]));
    v.push(ty::<(E85, bool)>("(E85, bool): enum E85 { Mid { m: Never, z: bool }, Zed(Tri, bool), Alpha(bool) }", vec![u8_::<(E85, bool)>(), u16_::<(E85, bool)>(), u32_::<(E85, bool)>(), u64_::<(E85, bool)>(), u128_::<(E85, bool)>(), small_::<(E85, bool)>(), p8_::<(E85, bool)>(), p16_::<(E85, bool)>()]));
    v.push(ty::<E93>("E93: enum E93 { Mid(Option<bool>), Zed(()), Alpha(Option<bool>) }", vec![u8_::<E93>(), u16_::<E93>(), u32_::<E93>(), u64_::<E93>(), u128_::<E93>(), small_::<E93>(), p8_::<E93>(), p16_::<E93>()]));
    v.push(ty::<Result<E93, Tri>>("Result<E93, Tri>: enum E93 { Mid(Option<bool>), Zed(()), Alpha(Option<bool>) }", vec![u8_::<Result<E93, Tri>>(), u16_::<Result<E93, Tri>>(), u32_::<Result<E93, Tri>>(), u64_::<Result<E93, Tri>>(), u128_::<Result<E93, Tri>>(), small_::<Result<E93, Tri>>(), p8_::<Result<E93, Tri>>(), p16_::<Result<E93, Tri>>()]));
    v.push(ty::<E101>("E101: enum E101 { Mid, Zed(Never), Alpha(Two), Quux(Never) }", vec![u8_::<E101>(), u16_::<E101>(), u32_::<E101>(), u64_::<E101>(), u128_::<E101>(), small_::<E101>(), p8_::<E101>(), p16_::<E101>()]));
    v.push(ty::<[E101; 2]>("[E101; 2]: enum E101 { Mid, Zed(Never), Alpha(Two), Quux(Never) }", vec![u8_::<[E101; 2]>(), u16_::<[E101; 2]>(), u32_::<[E101; 2]>(), u64_::<[E101; 2]>(), u128_::<[E101; 2]>(), small_::<[E101; 2]>(), p8_::<[E101; 2]>(), p16_::<[E101; 2]>()]));
    v.push(ty::<E109>("E109: enum E109 { Mid(Tri), Zed(Two), Alpha, Quux(Tri) }", vec![u8_::<E109>(), u16_::<E109>(), u32_::<E109>(), u64_::<E109>(), u128_::<E109>(), small_::<E109>(), p8_::<E109>(), p16_::<E109>()]));
    v.push(ty::<Option<(Tri, E109)>>("Option<(Tri, E109)>: enum E109 { Mid(Tri), Zed(Two), Alpha, Quux(Tri) }", vec![u8_::<Option<(Tri, E109)>>(), u16_::<Option<(Tri, E109)>>(), u32_::<Option<(Tri, E109)>>(), u64_::<Option<(Tri, E109)>>(), u128_::<Option<(Tri, E109)>>(), small_::<Option<(Tri, E109)>>(), p8_::<Option<(Tri, E109)>>(), p16_::<Option<(Tri, E109)>>()]));
    v.push(ty::<E117>("E117: enum E117 { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux(Two) }", vec![u8_::<E117>(), u16_::<E117>(), u32_::<E117>(), u64_::<E117>(), u128_::<E117>(), small_::<E117>(), p8_::<E117>(), p16_::<E117>()]));
    v.push(ty::<(E117,)>("(E117,): enum E117 { Mid { m: bool, z: Tri }, Zed(Two), Alpha, Quux(Two) }", vec![u8_::<(E117,)>(), u16_::<(E117,)>(), u32_::<(E117,)>(), u64_::<(E117,)>(), u128_::<(E117,)>(), small_::<(E117,)>(), p8_::<(E117,)>(), p16_::<(E117,)>()]));
    v.push(ty::<E125>("E125: enum E125 { Mid(Never), Zed(Two), Alpha(Tri), Quux { m: bool, z: Tri } }", vec![u8_::<E125>(), u16_::<E125>(), u32_::<E125>(), u64_::<E125>(), u128_::<E125>(), small_::<E125>(), p8_::<E125>(), p16_::<E125>()]));
    v.push(ty::<Result<bool, [E125; 1]>>("Result<bool, [E125; 1]>: enum E125 { Mid(Never), Zed(Two), Alpha(Tri), Quux { m: bool, z: Tri } }", vec![u8_::<Result<bool, [E125; 1]>>(), u16_::<Result<bool, [E125; 1]>>(), u32_::<Result<bool, [E125; 1]>>(), u64_::<Result<bool, [E125; 1]>>(), u128_::<Result<bool, [E125; 1]>>(), small_::<Result<bool, [E125; 1]>>(), p8_::<Result<bool, [E125; 1]>>(), p16_::<Result<bool, [E125; 1]>>()]));
    v.push(ty::<E133>("E133: enum E133 { Mid(Two), Zed(Two), Alpha { m: bool, z: Tri }, Quux }", vec![u8_::<E133>(), u16_::<E133>(), u32_::<E133>(), u64_::<E133>(), u128_::<E133>(), small_::<E133>(), p8_::<E133>(), p16_::<E133>()]));
    v.push(ty::<Option<E133>>("Option<E133>: enum E133 { Mid(Two), Zed(Two), Alpha { m: bool, z: Tri }, Quux }", vec![u8_::<Option<E133>>(), u16_::<Option<E133>>(), u32_::<Option<E133>>(), u64_::<Option<E133>>(), u128_::<Option<E133>>(), small_::<Option<E133>>(), p8_::<Option<E133>>(), p16_::<Option<E133>>()]));
    v.push(ty::<E141>("E141: enum E141 { Mid([bool;2], (bool,Tri)), Zed { m: (bool,Tri) } }", vec![u8_::<E141>(), u16_::<E141>(), u32_::<E141>(), u64_::<E141>(), u128_::<E141>(), small_::<E141>(), p8_::<E141>(), p16_::<E141>()]));
    v.push(ty::<(E141, bool)>("(E141, bool): enum E141 { Mid([bool;2], (bool,Tri)), Zed { m: (bool,Tri) } }", vec![u8_::<(E141, bool)>(), u16_::<(E141, bool)>(), u32_::<(E141, bool)>(), u64_::<(E141, bool)>(), u128_::<(E141, bool)>(), small_::<(E141, bool)>(), p8_::<(E141, bool)>(), p16_::<(E141, bool)>()]));
    v.push(ty::<S149>("S149: struct S149 { m: (), z: Never, a: Never }", vec![]));
    v.push(ty::<Result<S149, Tri>>("Result<S149, Tri>: struct S149 { m: (), z: Never, a: Never }", vec![u8_::<Result<S149, Tri>>(), u16_::<Result<S149, Tri>>(), u32_::<Result<S149, Tri>>(), u64_::<Result<S149, Tri>>(), u128_::<Result<S149, Tri>>(), small_::<Result<S149, Tri>>(), p8_::<Result<S149, Tri>>(), p16_::<Result<S149, Tri>>()]));
    v.push(ty::<S157>("S157: struct S157 { m: Tri, z: (), a: bool }", vec![u8_::<S157>(), u16_::<S157>(), u32_::<S157>(), u64_::<S157>(), u128_::<S157>(), small_::<S157>(), p8_::<S157>(), p16_::<S157>()]));
    v.push(ty::<[S157; 2]>("[S157; 2]: struct S157 { m: Tri, z: (), a: bool }", vec![u8_::<[S157; 2]>(), u16_::<[S157; 2]>(), u32_::<[S157; 2]>(), u64_::<[S157; 2]>(), u128_::<[S157; 2]>(), small_::<[S157; 2]>(), p8_::<[S157; 2]>(), p16_::<[S157; 2]>()]));
    v.push(ty::<S165>("S165: struct S165 { m: bool, z: Tri, a: (), q: bool }", vec![u8_::<S165>(), u16_::<S165>(), u32_::<S165>(), u64_::<S165>(), u128_::<S165>(), small_::<S165>(), p8_::<S165>(), p16_::<S165>()]));
    v.push(ty::<Option<(Tri, S165)>>("Option<(Tri, S165)>: struct S165 { m: bool, z: Tri, a: (), q: bool }", vec![u8_::<Option<(Tri, S165)>>(), u16_::<Option<(Tri, S165)>>(), u32_::<Option<(Tri, S165)>>(), u64_::<Option<(Tri, S165)>>(), u128_::<Option<(Tri, S165)>>(), small_::<Option<(Tri, S165)>>(), p8_::<Option<(Tri, S165)>>(), p16_::<Option<(Tri, S165)>>()]));
    v.push(ty::<S173>("S173: struct S173 ((bool,Tri)) ;", vec![u8_::<S173>(), u16_::<S173>(), u32_::<S173>(), u64_::<S173>(), u128_::<S173>(), small_::<S173>(), p8_::<S173>(), p16_::<S173>()]));
    v.push(ty::<(S173,)>("(S173,): struct S173 ((bool,Tri)) ;", vec![u8_::<(S173,)>(), u16_::<(S173,)>(), u32_::<(S173,)>(), u64_::<(S173,)>(), u128_::<(S173,)>(), small_::<(S173,)>(), p8_::<(S173,)>(), p16_::<(S173,)>()]));
    v.push(ty::<E181<bool>>("E181<bool>: enum E181<A: Clone + 'static> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }", vec![u8_::<E181<bool>>(), u16_::<E181<bool>>(), u32_::<E181<bool>>(), u64_::<E181<bool>>(), u128_::<E181<bool>>(), small_::<E181<bool>>(), p8_::<E181<bool>>(), p16_::<E181<bool>>()]));
    v.push(ty::<Result<bool, [E181<bool>; 1]>>("Result<bool, [E181<bool>; 1]>: enum E181<A: Clone + 'static> { Mid(Option<A>), Zed { m: (A,bool) }, Alpha }", vec![u8_::<Result<bool, [E181<bool>; 1]>>(), u16_::<Result<bool, [E181<bool>; 1]>>(), u32_::<Result<bool, [E181<bool>; 1]>>(), u64_::<Result<bool, [E181<bool>; 1]>>(), u128_::<Result<bool, [E181<bool>; 1]>>(), small_::<Result<bool, [E181<bool>; 1]>>(), p8_::<Result<bool, [E181<bool>; 1]>>(), p16_::<Result<bool, [E181<bool>; 1]>>()]));
    v.push(ty::<Tri>("Tri", vec![u8_::<Tri>(), u16_::<Tri>(), u32_::<Tri>(), u64_::<Tri>(), u128_::<Tri>(), small_::<Tri>(), p8_::<Tri>(), p16_::<Tri>()]));
    v.push(ty::<Result<(), ()>>("Result<(), ()>", vec![u8_::<Result<(), ()>>(), u16_::<Result<(), ()>>(), u32_::<Result<(), ()>>(), u64_::<Result<(), ()>>(), u128_::<Result<(), ()>>(), small_::<Result<(), ()>>(), p8_::<Result<(), ()>>(), p16_::<Result<(), ()>>()]));
    v.push(ty::<[bool; 3]>("[bool; 3]", vec![u8_::<[bool; 3]>(), u16_::<[bool; 3]>(), u32_::<[bool; 3]>(), u64_::<[bool; 3]>(), u128_::<[bool; 3]>(), small_::<[bool; 3]>(), p8_::<[bool; 3]>(), p16_::<[bool; 3]>()]));
    v.push(ty::<(bool, Five)>("(bool, Five)", vec![u8_::<(bool, Five)>(), u16_::<(bool, Five)>(), u32_::<(bool, Five)>(), u64_::<(bool, Five)>(), u128_::<(bool, Five)>(), small_::<(bool, Five)>(), p8_::<(bool, Five)>(), p16_::<(bool, Five)>()]));
    v.push(ty::<Result<Tri, bool>>("Result<Tri, bool>", vec![u8_::<Result<Tri, bool>>(), u16_::<Result<Tri, bool>>(), u32_::<Result<Tri, bool>>(), u64_::<Result<Tri, bool>>(), u128_::<Result<Tri, bool>>(), small_::<Result<Tri, bool>>(), p8_::<Result<Tri, bool>>(), p16_::<Result<Tri, bool>>()]));
    v.push(ty::<(Five, ())>("(Five, ())", vec![u8_::<(Five, ())>(), u16_::<(Five, ())>(), u32_::<(Five, ())>(), u64_::<(Five, ())>(), u128_::<(Five, ())>(), small_::<(Five, ())>(), p8_::<(Five, ())>(), p16_::<(Five, ())>()]));
    v.push(ty::<Option<Never>>("Option<Never>", vec![p8_::<Option<Never>>(), p16_::<Option<Never>>()]));
    v.push(ty::<Result<Never, Tri>>("Result<Never, Tri>", vec![u8_::<Result<Never, Tri>>(), u16_::<Result<Never, Tri>>(), u32_::<Result<Never, Tri>>(), u64_::<Result<Never, Tri>>(), u128_::<Result<Never, Tri>>(), small_::<Result<Never, Tri>>(), p8_::<Result<Never, Tri>>(), p16_::<Result<Never, Tri>>()]));
    v.push(ty::<(D17, bool)>("(D17, bool)", vec![u8_::<(D17, bool)>(), u16_::<(D17, bool)>(), u32_::<(D17, bool)>(), u64_::<(D17, bool)>(), u128_::<(D17, bool)>(), small_::<(D17, bool)>(), p8_::<(D17, bool)>(), p16_::<(D17, bool)>()]));
    v.push(ty::<Result<[(); 0], Result<bool, bool>>>("Result<[(); 0], Result<bool, bool>>", vec![u8_::<Result<[(); 0], Result<bool, bool>>>(), u16_::<Result<[(); 0], Result<bool, bool>>>(), u32_::<Result<[(); 0], Result<bool, bool>>>(), u64_::<Result<[(); 0], Result<bool, bool>>>(), u128_::<Result<[(); 0], Result<bool, bool>>>(), small_::<Result<[(); 0], Result<bool, bool>>>(), p8_::<Result<[(); 0], Result<bool, bool>>>(), p16_::<Result<[(); 0], Result<bool, bool>>>()]));
    v.push(ty::<Option<Result<(), Five>>>("Option<Result<(), Five>>", vec![u8_::<Option<Result<(), Five>>>(), u16_::<Option<Result<(), Five>>>(), u32_::<Option<Result<(), Five>>>(), u64_::<Option<Result<(), Five>>>(), u128_::<Option<Result<(), Five>>>(), small_::<Option<Result<(), Five>>>(), p8_::<Option<Result<(), Five>>>(), p16_::<Option<Result<(), Five>>>()]));
    v.push(ty::<[(bool, Tri); 2]>("[(bool, Tri); 2]", vec![u8_::<[(bool, Tri); 2]>(), u16_::<[(bool, Tri); 2]>(), u32_::<[(bool, Tri); 2]>(), u64_::<[(bool, Tri); 2]>(), u128_::<[(bool, Tri); 2]>(), small_::<[(bool, Tri); 2]>(), p8_::<[(bool, Tri); 2]>(), p16_::<[(bool, Tri); 2]>()]));
    v.push(ty::<(Result<Tri, ()>, (Never, Five))>("(Result<Tri, ()>, (Never, Five))", vec![]));
    v.push(ty::<([Five; 3], bool, Result<Five, Five>)>("([Five; 3], bool, Result<Five, Five>)", vec![u16_::<([Five; 3], bool, Result<Five, Five>)>(), u32_::<([Five; 3], bool, Result<Five, Five>)>(), u64_::<([Five; 3], bool, Result<Five, Five>)>(), u128_::<([Five; 3], bool, Result<Five, Five>)>(), small_::<([Five; 3], bool, Result<Five, Five>)>(), p16_::<([Five; 3], bool, Result<Five, Five>)>()]));
    v.push(ty::<Result<(Five, Five), Option<Five>>>("Result<(Five, Five), Option<Five>>", vec![u8_::<Result<(Five, Five), Option<Five>>>(), u16_::<Result<(Five, Five), Option<Five>>>(), u32_::<Result<(Five, Five), Option<Five>>>(), u64_::<Result<(Five, Five), Option<Five>>>(), u128_::<Result<(Five, Five), Option<Five>>>(), small_::<Result<(Five, Five), Option<Five>>>(), p8_::<Result<(Five, Five), Option<Five>>>(), p16_::<Result<(Five, Five), Option<Five>>>()]));
    v.push(ty::<Option<Result<Never, bool>>>("Option<Result<Never, bool>>", vec![u8_::<Option<Result<Never, bool>>>(), u16_::<Option<Result<Never, bool>>>(), u32_::<Option<Result<Never, bool>>>(), u64_::<Option<Result<Never, bool>>>(), u128_::<Option<Result<Never, bool>>>(), small_::<Option<Result<Never, bool>>>(), p8_::<Option<Result<Never, bool>>>(), p16_::<Option<Result<Never, bool>>>()]));
    v.push(ty::<[(D17, ()); 2]>("[(D17, ()); 2]", vec![u16_::<[(D17, ()); 2]>(), u32_::<[(D17, ()); 2]>(), u64_::<[(D17, ()); 2]>(), u128_::<[(D17, ()); 2]>(), small_::<[(D17, ()); 2]>(), p16_::<[(D17, ()); 2]>()]));
    v.push(ty::<(bool, Tri, (), Two, One, bool, Tri)>("(bool, Tri, (), Two, One, bool, Tri)", vec![u8_::<(bool, Tri, (), Two, One, bool, Tri)>(), u16_::<(bool, Tri, (), Two, One, bool, Tri)>(), u32_::<(bool, Tri, (), Two, One, bool, Tri)>(), u64_::<(bool, Tri, (), Two, One, bool, Tri)>(), u128_::<(bool, Tri, (), Two, One, bool, Tri)>(), small_::<(bool, Tri, (), Two, One, bool, Tri)>(), p8_::<(bool, Tri, (), Two, One, bool, Tri)>(), p16_::<(bool, Tri, (), Two, One, bool, Tri)>()]));
    v.push(ty::<[(); 32]>("[(); 32]", vec![p8_::<[(); 32]>(), p16_::<[(); 32]>()]));
    v.push(ty::<N32>("N32", vec![u32_::<N32>(), u64_::<N32>(), u128_::<N32>(), small_::<N32>()]));
}
