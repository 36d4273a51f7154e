// generated by tools/gen_e2e.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use e2esut::*;
use enum_like_derive::EnumLike;
#[derive(Clone, Copy, EnumLike)]
pub enum E4  { Mid, Zed, Alpha, Quux }
impl Spec for E4 {
    fn count() -> u128 { 4u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E4::Mid; } i -= 1;
        if i == 0 { return E4::Zed; } i -= 1;
        if i == 0 { return E4::Alpha; } i -= 1;
        if i == 0 { return E4::Quux; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E4::Mid => 0u128,
            E4::Zed => 1u128,
            E4::Alpha => 2u128,
            E4::Quux => 3u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E12  { V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V239, V238, V237, V236, V235, V234, V233, V232, V231, V230, V229, V228, V227, V226, V225, V224, V223, V222, V221, V220, V219, V218, V217, V216, V215, V214, V213, V212, V211, V210, V209, V208, V207, V206, V205, V204, V203, V202, V201, V200, V199, V198, V197, V196, V195, V194, V193, V192, V191, V190, V189, V188, V187, V186, V185, V184, V183, V182, V181, V180, V179, V178, V177, V176, V175, V174, V173, V172, V171, V170, V169, V168, V167, V166, V165, V164, V163, V162, V161, V160, V159, V158, V157, V156, V155, V154, V153, V152, V151, V150, V149, V148, V147, V146, V145, V144, V143, V142, V141, V140, V139, V138, V137, V136, V135, V134, V133, V132, V131, V130, V129, V128, V127, V126, V125, V124, V123, V122, V121, V120, V119, V118, V117, V116, V115, V114, V113, V112, V111, V110, V109, V108, V107, V106, V105, V104, V103, V102, V101, V100, V99, V98, V97, V96, V95, V94, V93, V92, V91, V90, V89, V88, V87, V86, V85, V84, V83, V82, V81, V80, V79, V78, V77, V76, V75, V74, V73, V72, V71, V70, V69, V68, V67, V66, V65, V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43, V42, V41, V40, V39, V38, V37, V36, V35, V34, V33, V32, V31, V30, V29, V28, V27, V26, V25, V24, V23, V22, V21, V20, V19, V18, V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E12 {
    fn count() -> u128 { 255u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E12::V255; } i -= 1;
        if i == 0 { return E12::V254; } i -= 1;
        if i == 0 { return E12::V253; } i -= 1;
        if i == 0 { return E12::V252; } i -= 1;
        if i == 0 { return E12::V251; } i -= 1;
        if i == 0 { return E12::V250; } i -= 1;
        if i == 0 { return E12::V249; } i -= 1;
        if i == 0 { return E12::V248; } i -= 1;
        if i == 0 { return E12::V247; } i -= 1;
        if i == 0 { return E12::V246; } i -= 1;
        if i == 0 { return E12::V245; } i -= 1;
        if i == 0 { return E12::V244; } i -= 1;
        if i == 0 { return E12::V243; } i -= 1;
        if i == 0 { return E12::V242; } i -= 1;
        if i == 0 { return E12::V241; } i -= 1;
        if i == 0 { return E12::V240; } i -= 1;
        if i == 0 { return E12::V239; } i -= 1;
        if i == 0 { return E12::V238; } i -= 1;
        if i == 0 { return E12::V237; } i -= 1;
        if i == 0 { return E12::V236; } i -= 1;
        if i == 0 { return E12::V235; } i -= 1;
        if i == 0 { return E12::V234; } i -= 1;
        if i == 0 { return E12::V233; } i -= 1;
        if i == 0 { return E12::V232; } i -= 1;
        if i == 0 { return E12::V231; } i -= 1;
        if i == 0 { return E12::V230; } i -= 1;
        if i == 0 { return E12::V229; } i -= 1;
        if i == 0 { return E12::V228; } i -= 1;
        if i == 0 { return E12::V227; } i -= 1;
        if i == 0 { return E12::V226; } i -= 1;
        if i == 0 { return E12::V225; } i -= 1;
        if i == 0 { return E12::V224; } i -= 1;
        if i == 0 { return E12::V223; } i -= 1;
        if i == 0 { return E12::V222; } i -= 1;
        if i == 0 { return E12::V221; } i -= 1;
        if i == 0 { return E12::V220; } i -= 1;
        if i == 0 { return E12::V219; } i -= 1;
        if i == 0 { return E12::V218; } i -= 1;
        if i == 0 { return E12::V217; } i -= 1;
        if i == 0 { return E12::V216; } i -= 1;
        if i == 0 { return E12::V215; } i -= 1;
        if i == 0 { return E12::V214; } i -= 1;
        if i == 0 { return E12::V213; } i -= 1;
        if i == 0 { return E12::V212; } i -= 1;
        if i == 0 { return E12::V211; } i -= 1;
        if i == 0 { return E12::V210; } i -= 1;
        if i == 0 { return E12::V209; } i -= 1;
        if i == 0 { return E12::V208; } i -= 1;
        if i == 0 { return E12::V207; } i -= 1;
        if i == 0 { return E12::V206; } i -= 1;
        if i == 0 { return E12::V205; } i -= 1;
        if i == 0 { return E12::V204; } i -= 1;
        if i == 0 { return E12::V203; } i -= 1;
        if i == 0 { return E12::V202; } i -= 1;
        if i == 0 { return E12::V201; } i -= 1;
        if i == 0 { return E12::V200; } i -= 1;
        if i == 0 { return E12::V199; } i -= 1;
        if i == 0 { return E12::V198; } i -= 1;
        if i == 0 { return E12::V197; } i -= 1;
        if i == 0 { return E12::V196; } i -= 1;
        if i == 0 { return E12::V195; } i -= 1;
        if i == 0 { return E12::V194; } i -= 1;
        if i == 0 { return E12::V193; } i -= 1;
        if i == 0 { return E12::V192; } i -= 1;
        if i == 0 { return E12::V191; } i -= 1;
        if i == 0 { return E12::V190; } i -= 1;
        if i == 0 { return E12::V189; } i -= 1;
        if i == 0 { return E12::V188; } i -= 1;
        if i == 0 { return E12::V187; } i -= 1;
        if i == 0 { return E12::V186; } i -= 1;
        if i == 0 { return E12::V185; } i -= 1;
        if i == 0 { return E12::V184; } i -= 1;
        if i == 0 { return E12::V183; } i -= 1;
        if i == 0 { return E12::V182; } i -= 1;
        if i == 0 { return E12::V181; } i -= 1;
        if i == 0 { return E12::V180; } i -= 1;
        if i == 0 { return E12::V179; } i -= 1;
        if i == 0 { return E12::V178; } i -= 1;
        if i == 0 { return E12::V177; } i -= 1;
        if i == 0 { return E12::V176; } i -= 1;
        if i == 0 { return E12::V175; } i -= 1;
        if i == 0 { return E12::V174; } i -= 1;
        if i == 0 { return E12::V173; } i -= 1;
        if i == 0 { return E12::V172; } i -= 1;
        if i == 0 { return E12::V171; } i -= 1;
        if i == 0 { return E12::V170; } i -= 1;
        if i == 0 { return E12::V169; } i -= 1;
        if i == 0 { return E12::V168; } i -= 1;
        if i == 0 { return E12::V167; } i -= 1;
        if i == 0 { return E12::V166; } i -= 1;
        if i == 0 { return E12::V165; } i -= 1;
        if i == 0 { return E12::V164; } i -= 1;
        if i == 0 { return E12::V163; } i -= 1;
        if i == 0 { return E12::V162; } i -= 1;
        if i == 0 { return E12::V161; } i -= 1;
        if i == 0 { return E12::V160; } i -= 1;
        if i == 0 { return E12::V159; } i -= 1;
        if i == 0 { return E12::V158; } i -= 1;
        if i == 0 { return E12::V157; } i -= 1;
        if i == 0 { return E12::V156; } i -= 1;
        if i == 0 { return E12::V155; } i -= 1;
        if i == 0 { return E12::V154; } i -= 1;
        if i == 0 { return E12::V153; } i -= 1;
        if i == 0 { return E12::V152; } i -= 1;
        if i == 0 { return E12::V151; } i -= 1;
        if i == 0 { return E12::V150; } i -= 1;
        if i == 0 { return E12::V149; } i -= 1;
        if i == 0 { return E12::V148; } i -= 1;
        if i == 0 { return E12::V147; } i -= 1;
        if i == 0 { return E12::V146; } i -= 1;
        if i == 0 { return E12::V145; } i -= 1;
        if i == 0 { return E12::V144; } i -= 1;
        if i == 0 { return E12::V143; } i -= 1;
        if i == 0 { return E12::V142; } i -= 1;
        if i == 0 { return E12::V141; } i -= 1;
        if i == 0 { return E12::V140; } i -= 1;
        if i == 0 { return E12::V139; } i -= 1;
        if i == 0 { return E12::V138; } i -= 1;
        if i == 0 { return E12::V137; } i -= 1;
        if i == 0 { return E12::V136; } i -= 1;
        if i == 0 { return E12::V135; } i -= 1;
        if i == 0 { return E12::V134; } i -= 1;
        if i == 0 { return E12::V133; } i -= 1;
        if i == 0 { return E12::V132; } i -= 1;
        if i == 0 { return E12::V131; } i -= 1;
        if i == 0 { return E12::V130; } i -= 1;
        if i == 0 { return E12::V129; } i -= 1;
        if i == 0 { return E12::V128; } i -= 1;
        if i == 0 { return E12::V127; } i -= 1;
        if i == 0 { return E12::V126; } i -= 1;
        if i == 0 { return E12::V125; } i -= 1;
        if i == 0 { return E12::V124; } i -= 1;
        if i == 0 { return E12::V123; } i -= 1;
        if i == 0 { return E12::V122; } i -= 1;
        if i == 0 { return E12::V121; } i -= 1;
        if i == 0 { return E12::V120; } i -= 1;
        if i == 0 { return E12::V119; } i -= 1;
        if i == 0 { return E12::V118; } i -= 1;
        if i == 0 { return E12::V117; } i -= 1;
        if i == 0 { return E12::V116; } i -= 1;
        if i == 0 { return E12::V115; } i -= 1;
        if i == 0 { return E12::V114; } i -= 1;
        if i == 0 { return E12::V113; } i -= 1;
        if i == 0 { return E12::V112; } i -= 1;
        if i == 0 { return E12::V111; } i -= 1;
        if i == 0 { return E12::V110; } i -= 1;
        if i == 0 { return E12::V109; } i -= 1;
        if i == 0 { return E12::V108; } i -= 1;
        if i == 0 { return E12::V107; } i -= 1;
        if i == 0 { return E12::V106; } i -= 1;
        if i == 0 { return E12::V105; } i -= 1;
        if i == 0 { return E12::V104; } i -= 1;
        if i == 0 { return E12::V103; } i -= 1;
        if i == 0 { return E12::V102; } i -= 1;
        if i == 0 { return E12::V101; } i -= 1;
        if i == 0 { return E12::V100; } i -= 1;
        if i == 0 { return E12::V99; } i -= 1;
        if i == 0 { return E12::V98; } i -= 1;
        if i == 0 { return E12::V97; } i -= 1;
        if i == 0 { return E12::V96; } i -= 1;
        if i == 0 { return E12::V95; } i -= 1;
        if i == 0 { return E12::V94; } i -= 1;
        if i == 0 { return E12::V93; } i -= 1;
        if i == 0 { return E12::V92; } i -= 1;
        if i == 0 { return E12::V91; } i -= 1;
        if i == 0 { return E12::V90; } i -= 1;
        if i == 0 { return E12::V89; } i -= 1;
        if i == 0 { return E12::V88; } i -= 1;
        if i == 0 { return E12::V87; } i -= 1;
        if i == 0 { return E12::V86; } i -= 1;
        if i == 0 { return E12::V85; } i -= 1;
        if i == 0 { return E12::V84; } i -= 1;
        if i == 0 { return E12::V83; } i -= 1;
        if i == 0 { return E12::V82; } i -= 1;
        if i == 0 { return E12::V81; } i -= 1;
        if i == 0 { return E12::V80; } i -= 1;
        if i == 0 { return E12::V79; } i -= 1;
        if i == 0 { return E12::V78; } i -= 1;
        if i == 0 { return E12::V77; } i -= 1;
        if i == 0 { return E12::V76; } i -= 1;
        if i == 0 { return E12::V75; } i -= 1;
        if i == 0 { return E12::V74; } i -= 1;
        if i == 0 { return E12::V73; } i -= 1;
        if i == 0 { return E12::V72; } i -= 1;
        if i == 0 { return E12::V71; } i -= 1;
        if i == 0 { return E12::V70; } i -= 1;
        if i == 0 { return E12::V69; } i -= 1;
        if i == 0 { return E12::V68; } i -= 1;
        if i == 0 { return E12::V67; } i -= 1;
        if i == 0 { return E12::V66; } i -= 1;
        if i == 0 { return E12::V65; } i -= 1;
        if i == 0 { return E12::V64; } i -= 1;
        if i == 0 { return E12::V63; } i -= 1;
        if i == 0 { return E12::V62; } i -= 1;
        if i == 0 { return E12::V61; } i -= 1;
        if i == 0 { return E12::V60; } i -= 1;
        if i == 0 { return E12::V59; } i -= 1;
        if i == 0 { return E12::V58; } i -= 1;
        if i == 0 { return E12::V57; } i -= 1;
        if i == 0 { return E12::V56; } i -= 1;
        if i == 0 { return E12::V55; } i -= 1;
        if i == 0 { return E12::V54; } i -= 1;
        if i == 0 { return E12::V53; } i -= 1;
        if i == 0 { return E12::V52; } i -= 1;
        if i == 0 { return E12::V51; } i -= 1;
        if i == 0 { return E12::V50; } i -= 1;
        if i == 0 { return E12::V49; } i -= 1;
        if i == 0 { return E12::V48; } i -= 1;
        if i == 0 { return E12::V47; } i -= 1;
        if i == 0 { return E12::V46; } i -= 1;
        if i == 0 { return E12::V45; } i -= 1;
        if i == 0 { return E12::V44; } i -= 1;
        if i == 0 { return E12::V43; } i -= 1;
        if i == 0 { return E12::V42; } i -= 1;
        if i == 0 { return E12::V41; } i -= 1;
        if i == 0 { return E12::V40; } i -= 1;
        if i == 0 { return E12::V39; } i -= 1;
        if i == 0 { return E12::V38; } i -= 1;
        if i == 0 { return E12::V37; } i -= 1;
        if i == 0 { return E12::V36; } i -= 1;
        if i == 0 { return E12::V35; } i -= 1;
        if i == 0 { return E12::V34; } i -= 1;
        if i == 0 { return E12::V33; } i -= 1;
        if i == 0 { return E12::V32; } i -= 1;
        if i == 0 { return E12::V31; } i -= 1;
        if i == 0 { return E12::V30; } i -= 1;
        if i == 0 { return E12::V29; } i -= 1;
        if i == 0 { return E12::V28; } i -= 1;
        if i == 0 { return E12::V27; } i -= 1;
        if i == 0 { return E12::V26; } i -= 1;
        if i == 0 { return E12::V25; } i -= 1;
        if i == 0 { return E12::V24; } i -= 1;
        if i == 0 { return E12::V23; } i -= 1;
        if i == 0 { return E12::V22; } i -= 1;
        if i == 0 { return E12::V21; } i -= 1;
        if i == 0 { return E12::V20; } i -= 1;
        if i == 0 { return E12::V19; } i -= 1;
        if i == 0 { return E12::V18; } i -= 1;
        if i == 0 { return E12::V17; } i -= 1;
        if i == 0 { return E12::V16; } i -= 1;
        if i == 0 { return E12::V15; } i -= 1;
        if i == 0 { return E12::V14; } i -= 1;
        if i == 0 { return E12::V13; } i -= 1;
        if i == 0 { return E12::V12; } i -= 1;
        if i == 0 { return E12::V11; } i -= 1;
        if i == 0 { return E12::V10; } i -= 1;
        if i == 0 { return E12::V9; } i -= 1;
        if i == 0 { return E12::V8; } i -= 1;
        if i == 0 { return E12::V7; } i -= 1;
        if i == 0 { return E12::V6; } i -= 1;
        if i == 0 { return E12::V5; } i -= 1;
        if i == 0 { return E12::V4; } i -= 1;
        if i == 0 { return E12::V3; } i -= 1;
        if i == 0 { return E12::V2; } i -= 1;
        if i == 0 { return E12::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E12::V255 => 0u128,
            E12::V254 => 1u128,
            E12::V253 => 2u128,
            E12::V252 => 3u128,
            E12::V251 => 4u128,
            E12::V250 => 5u128,
            E12::V249 => 6u128,
            E12::V248 => 7u128,
            E12::V247 => 8u128,
            E12::V246 => 9u128,
            E12::V245 => 10u128,
            E12::V244 => 11u128,
            E12::V243 => 12u128,
            E12::V242 => 13u128,
            E12::V241 => 14u128,
            E12::V240 => 15u128,
            E12::V239 => 16u128,
            E12::V238 => 17u128,
            E12::V237 => 18u128,
            E12::V236 => 19u128,
            E12::V235 => 20u128,
            E12::V234 => 21u128,
            E12::V233 => 22u128,
            E12::V232 => 23u128,
            E12::V231 => 24u128,
            E12::V230 => 25u128,
            E12::V229 => 26u128,
            E12::V228 => 27u128,
            E12::V227 => 28u128,
            E12::V226 => 29u128,
            E12::V225 => 30u128,
            E12::V224 => 31u128,
            E12::V223 => 32u128,
            E12::V222 => 33u128,
            E12::V221 => 34u128,
            E12::V220 => 35u128,
            E12::V219 => 36u128,
            E12::V218 => 37u128,
            E12::V217 => 38u128,
            E12::V216 => 39u128,
            E12::V215 => 40u128,
            E12::V214 => 41u128,
            E12::V213 => 42u128,
            E12::V212 => 43u128,
            E12::V211 => 44u128,
            E12::V210 => 45u128,
            E12::V209 => 46u128,
            E12::V208 => 47u128,
            E12::V207 => 48u128,
            E12::V206 => 49u128,
            E12::V205 => 50u128,
            E12::V204 => 51u128,
            E12::V203 => 52u128,
            E12::V202 => 53u128,
            E12::V201 => 54u128,
            E12::V200 => 55u128,
            E12::V199 => 56u128,
            E12::V198 => 57u128,
            E12::V197 => 58u128,
            E12::V196 => 59u128,
            E12::V195 => 60u128,
            E12::V194 => 61u128,
            E12::V193 => 62u128,
            E12::V192 => 63u128,
            E12::V191 => 64u128,
            E12::V190 => 65u128,
            E12::V189 => 66u128,
            E12::V188 => 67u128,
            E12::V187 => 68u128,
            E12::V186 => 69u128,
            E12::V185 => 70u128,
            E12::V184 => 71u128,
            E12::V183 => 72u128,
            E12::V182 => 73u128,
            E12::V181 => 74u128,
            E12::V180 => 75u128,
            E12::V179 => 76u128,
            E12::V178 => 77u128,
            E12::V177 => 78u128,
            E12::V176 => 79u128,
            E12::V175 => 80u128,
            E12::V174 => 81u128,
            E12::V173 => 82u128,
            E12::V172 => 83u128,
            E12::V171 => 84u128,
            E12::V170 => 85u128,
            E12::V169 => 86u128,
            E12::V168 => 87u128,
            E12::V167 => 88u128,
            E12::V166 => 89u128,
            E12::V165 => 90u128,
            E12::V164 => 91u128,
            E12::V163 => 92u128,
            E12::V162 => 93u128,
            E12::V161 => 94u128,
            E12::V160 => 95u128,
            E12::V159 => 96u128,
            E12::V158 => 97u128,
            E12::V157 => 98u128,
            E12::V156 => 99u128,
            E12::V155 => 100u128,
            E12::V154 => 101u128,
            E12::V153 => 102u128,
            E12::V152 => 103u128,
            E12::V151 => 104u128,
            E12::V150 => 105u128,
            E12::V149 => 106u128,
            E12::V148 => 107u128,
            E12::V147 => 108u128,
            E12::V146 => 109u128,
            E12::V145 => 110u128,
            E12::V144 => 111u128,
            E12::V143 => 112u128,
            E12::V142 => 113u128,
            E12::V141 => 114u128,
            E12::V140 => 115u128,
            E12::V139 => 116u128,
            E12::V138 => 117u128,
            E12::V137 => 118u128,
            E12::V136 => 119u128,
            E12::V135 => 120u128,
            E12::V134 => 121u128,
            E12::V133 => 122u128,
            E12::V132 => 123u128,
            E12::V131 => 124u128,
            E12::V130 => 125u128,
            E12::V129 => 126u128,
            E12::V128 => 127u128,
            E12::V127 => 128u128,
            E12::V126 => 129u128,
            E12::V125 => 130u128,
            E12::V124 => 131u128,
            E12::V123 => 132u128,
            E12::V122 => 133u128,
            E12::V121 => 134u128,
            E12::V120 => 135u128,
            E12::V119 => 136u128,
            E12::V118 => 137u128,
            E12::V117 => 138u128,
            E12::V116 => 139u128,
            E12::V115 => 140u128,
            E12::V114 => 141u128,
            E12::V113 => 142u128,
            E12::V112 => 143u128,
            E12::V111 => 144u128,
            E12::V110 => 145u128,
            E12::V109 => 146u128,
            E12::V108 => 147u128,
            E12::V107 => 148u128,
            E12::V106 => 149u128,
            E12::V105 => 150u128,
            E12::V104 => 151u128,
            E12::V103 => 152u128,
            E12::V102 => 153u128,
            E12::V101 => 154u128,
            E12::V100 => 155u128,
            E12::V99 => 156u128,
            E12::V98 => 157u128,
            E12::V97 => 158u128,
            E12::V96 => 159u128,
            E12::V95 => 160u128,
            E12::V94 => 161u128,
            E12::V93 => 162u128,
            E12::V92 => 163u128,
            E12::V91 => 164u128,
            E12::V90 => 165u128,
            E12::V89 => 166u128,
            E12::V88 => 167u128,
            E12::V87 => 168u128,
            E12::V86 => 169u128,
            E12::V85 => 170u128,
            E12::V84 => 171u128,
            E12::V83 => 172u128,
            E12::V82 => 173u128,
            E12::V81 => 174u128,
            E12::V80 => 175u128,
            E12::V79 => 176u128,
            E12::V78 => 177u128,
            E12::V77 => 178u128,
            E12::V76 => 179u128,
            E12::V75 => 180u128,
            E12::V74 => 181u128,
            E12::V73 => 182u128,
            E12::V72 => 183u128,
            E12::V71 => 184u128,
            E12::V70 => 185u128,
            E12::V69 => 186u128,
            E12::V68 => 187u128,
            E12::V67 => 188u128,
            E12::V66 => 189u128,
            E12::V65 => 190u128,
            E12::V64 => 191u128,
            E12::V63 => 192u128,
            E12::V62 => 193u128,
            E12::V61 => 194u128,
            E12::V60 => 195u128,
            E12::V59 => 196u128,
            E12::V58 => 197u128,
            E12::V57 => 198u128,
            E12::V56 => 199u128,
            E12::V55 => 200u128,
            E12::V54 => 201u128,
            E12::V53 => 202u128,
            E12::V52 => 203u128,
            E12::V51 => 204u128,
            E12::V50 => 205u128,
            E12::V49 => 206u128,
            E12::V48 => 207u128,
            E12::V47 => 208u128,
            E12::V46 => 209u128,
            E12::V45 => 210u128,
            E12::V44 => 211u128,
            E12::V43 => 212u128,
            E12::V42 => 213u128,
            E12::V41 => 214u128,
            E12::V40 => 215u128,
            E12::V39 => 216u128,
            E12::V38 => 217u128,
            E12::V37 => 218u128,
            E12::V36 => 219u128,
            E12::V35 => 220u128,
            E12::V34 => 221u128,
            E12::V33 => 222u128,
            E12::V32 => 223u128,
            E12::V31 => 224u128,
            E12::V30 => 225u128,
            E12::V29 => 226u128,
            E12::V28 => 227u128,
            E12::V27 => 228u128,
            E12::V26 => 229u128,
            E12::V25 => 230u128,
            E12::V24 => 231u128,
            E12::V23 => 232u128,
            E12::V22 => 233u128,
            E12::V21 => 234u128,
            E12::V20 => 235u128,
            E12::V19 => 236u128,
            E12::V18 => 237u128,
            E12::V17 => 238u128,
            E12::V16 => 239u128,
            E12::V15 => 240u128,
            E12::V14 => 241u128,
            E12::V13 => 242u128,
            E12::V12 => 243u128,
            E12::V11 => 244u128,
            E12::V10 => 245u128,
            E12::V9 => 246u128,
            E12::V8 => 247u128,
            E12::V7 => 248u128,
            E12::V6 => 249u128,
            E12::V5 => 250u128,
            E12::V4 => 251u128,
            E12::V3 => 252u128,
            E12::V2 => 253u128,
            E12::V1 => 254u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E20  { Mid((), Tri, ()) }
impl Spec for E20 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return E20::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E20::Mid(f0, f1, f2) => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E28  { Mid { m: Tri }, Zed }
impl Spec for E28 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E28::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E28::Mid { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E28::Zed => 0u128,
            E28::Mid { m: f0 } => 1u128 + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E36  { Mid, Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }
impl Spec for E36 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E36::Mid; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E36::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E36::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E36::Mid => 0u128,
            E36::Zed { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E36::Alpha(f0, f1, f2) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E44  { Mid(bool), Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }
impl Spec for E44 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E44::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E44::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E44::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E44::Mid(f0) => 0u128 + f0.index(),
            E44::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E44::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E52  { Mid { m: Tri }, Zed(bool), Alpha { m: Tri } }
impl Spec for E52 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E52::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E52::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E52::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E52::Mid { m: f0 } => 0u128 + f0.index(),
            E52::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E52::Alpha { m: f0 } => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E60  { Mid(Tri, bool), Zed(Tri, bool), Alpha(bool) }
impl Spec for E60 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E60::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E60::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E60::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E60::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E60::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E60::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E68  { Mid { m: bool, z: Tri }, Zed(()), Alpha(Option<bool>) }
impl Spec for E68 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E68::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E68::Zed(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E68::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E68::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E68::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E68::Alpha(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E76  { Mid(()), Zed(Option<bool>), Alpha(Tri, Two, Tri) }
impl Spec for E76 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E76::Mid(f0); } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E76::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E76::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E76::Mid(f0) => 0u128 + f0.index(),
            E76::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E76::Alpha(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E84  { Mid { m: Never, z: bool }, Zed(Never), Alpha { m: bool, z: Tri } }
impl Spec for E84 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E84::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E84::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E84::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E84::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E84::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
            E84::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E92  { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha { m: Tri } }
impl Spec for E92 {
    fn count() -> u128 { 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E92::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E92::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E92::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E92::Mid(f0) => 0u128 + f0.index(),
            E92::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E92::Alpha { m: f0 } => 0u128 + 1u128 * <Option<bool> as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E100  { Mid, Zed(Never), Alpha(Tri), Quux { m: bool, z: Tri } }
impl Spec for E100 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E100::Mid; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E100::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E100::Alpha(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E100::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E100::Mid => 0u128,
            E100::Zed(f0) => 1u128 + f0.index(),
            E100::Alpha(f0) => 1u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E100::Quux { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E108  { Mid(Tri), Zed(Never), Alpha { m: bool, z: Tri }, Quux }
impl Spec for E108 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E108::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E108::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E108::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E108::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E108::Quux => 0u128,
            E108::Mid(f0) => 1u128 + f0.index(),
            E108::Zed(f0) => 1u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E108::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E116  { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Never) }
impl Spec for E116 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E116::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E116::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E116::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E116::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E116::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E116::Zed(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E116::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E116::Quux(f0) => 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E124  { Mid(Never), Zed(Never), Alpha(Never), Quux(Tri) }
impl Spec for E124 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E124::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E124::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E124::Alpha(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E124::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E124::Mid(f0) => 0u128 + f0.index(),
            E124::Zed(f0) => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E124::Alpha(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E124::Quux(f0) => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E132  { Mid(Two), Zed(Never), Alpha(Never), Quux(Two) }
impl Spec for E132 {
    fn count() -> u128 { 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E132::Mid(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E132::Zed(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E132::Alpha(f0); } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E132::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E132::Mid(f0) => 0u128 + f0.index(),
            E132::Zed(f0) => 0u128 + 1u128 * <Two as Spec>::count() + f0.index(),
            E132::Alpha(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
            E132::Quux(f0) => 0u128 + 1u128 * <Two as Spec>::count() + 1u128 * <Never as Spec>::count() + 1u128 * <Never as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E140  { Mid, Zed { m: [Tri;0], z: Tri }, Alpha(Tri, [Tri;0]), Quux }
impl Spec for E140 {
    fn count() -> u128 { 2u128 + 1u128 * <[Tri;0] as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <[Tri;0] as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E140::Mid; } i -= 1;
        if i == 0 { return E140::Quux; } i -= 1;
        let c = 1u128 * <[Tri;0] as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Tri;0]>(&mut r); let f1 = pick::<Tri>(&mut r); return E140::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <[Tri;0] as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<[Tri;0]>(&mut r); return E140::Alpha(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E140::Mid => 0u128,
            E140::Quux => 1u128,
            E140::Zed { m: f0, z: f1 } => 2u128 + f0.index() + <[Tri;0] as Spec>::count() * f1.index(),
            E140::Alpha(f0, f1) => 2u128 + 1u128 * <[Tri;0] as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S148   { m: (), z: (), a: Five }
impl Spec for S148 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count() * <() as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Five>(&mut r); return S148 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S148 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <() as Spec>::count() * f1.index() + <() as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S156   { m: Never, z: Tri, a: Tri }
impl Spec for S156 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Tri>(&mut r); return S156 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S156 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index() + <Never as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S164   { m: bool, z: bool, a: (), q: Tri }
impl Spec for S164 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<()>(&mut r); let f3 = pick::<Tri>(&mut r); return S164 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S164 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <bool as Spec>::count() * f2.index() + <bool as Spec>::count() * <bool as Spec>::count() * <() as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S172 (Tri, (), Two, Tri, (), Two, Tri, ()) ;
impl Spec for S172 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Two>(&mut r); let f3 = pick::<Tri>(&mut r); let f4 = pick::<()>(&mut r); let f5 = pick::<Two>(&mut r); let f6 = pick::<Tri>(&mut r); let f7 = pick::<()>(&mut r); return S172(f0, f1, f2, f3, f4, f5, f6, f7); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S172(f0, f1, f2, f3, f4, f5, f6, f7) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <() as Spec>::count() * f2.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * f3.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * f4.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * f5.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * f6.index() + <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() * f7.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E180<A>  { Mid(A, A), Zed { m: A, z: Tri, a: A } }
impl<A: Spec> Spec for E180<A> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() * <A as Spec>::count() + 1u128 * <A as Spec>::count() * <Tri as Spec>::count() * <A as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<A>(&mut r); return E180::Mid(f0, f1); } i -= c;
        let c = 1u128 * <A as Spec>::count() * <Tri as Spec>::count() * <A as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<A>(&mut r); return E180::Zed { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E180::Mid(f0, f1) => 0u128 + f0.index() + <A as Spec>::count() * f1.index(),
            E180::Zed { m: f0, z: f1, a: f2 } => 0u128 + 1u128 * <A as Spec>::count() * <A as Spec>::count() + f0.index() + <A as Spec>::count() * f1.index() + <A as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
pub fn all(v: &mut Vec<Ty>) {
    v.push(ty::<E4>("E4: enum E4 { Mid, Zed, Alpha, Quux }", vec![u8_::<E4>(), u16_::<E4>(), u32_::<E4>(), u64_::<E4>(), u128_::<E4>(), small_::<E4>(), p8_::<E4>(), p16_::<E4>()]));
    v.push(ty::<Option<(Tri, E4)>>("Option<(Tri, E4)>: enum E4 { Mid, Zed, Alpha, Quux }", vec![u8_::<Option<(Tri, E4)>>(), u16_::<Option<(Tri, E4)>>(), u32_::<Option<(Tri, E4)>>(), u64_::<Option<(Tri, E4)>>(), u128_::<Option<(Tri, E4)>>(), small_::<Option<(Tri, E4)>>(), p8_::<Option<(Tri, E4)>>(), p16_::<Option<(Tri, E4)>>()]));
    v.push(ty::<E12>("E12: enum E12 { V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V239, V238, V", vec![u8_::<E12>(), u16_::<E12>(), u32_::<E12>(), u64_::<E12>(), u128_::<E12>(), small_::<E12>(), p8_::<E12>(), p16_::<E12>()]));
    v.push(ty::<(E12,)>("(E12,): enum E12 { V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V239, V238, V", vec![u8_::<(E12,)>(), u16_::<(E12,)>(), u32_::<(E12,)>(), u64_::<(E12,)>(), u128_::<(E12,)>(), small_::<(E12,)>(), p8_::<(E12,)>(), p16_::<(E12,)>()]));
    v.push(ty::<E20>("E20: enum E20 { Mid((), Tri, ()) }", vec![u8_::<E20>(), u16_::<E20>(), u32_::<E20>(), u64_::<E20>(), u128_::<E20>(), small_::<E20>(), p8_::<E20>(), p16_::<E20>()]));
    v.push(ty::<Result<bool, [E20; 1]>>("Result<bool, [E20; 1]>: enum E20 { Mid((), Tri, ()) }", vec![u8_::<Result<bool, [E20; 1]>>(), u16_::<Result<bool, [E20; 1]>>(), u32_::<Result<bool, [E20; 1]>>(), u64_::<Result<bool, [E20; 1]>>(), u128_::<Result<bool, [E20; 1]>>(), small_::<Result<bool, [E20; 1]>>(), p8_::<Result<bool, [E20; 1]>>(), p16_::<Result<bool, [E20; 1]>>()]));
    v.push(ty::<E28>("E28: enum E28 { Mid { m: Tri }, Zed }", vec![u8_::<E28>(), u16_::<E28>(), u32_::<E28>(), u64_::<E28>(), u128_::<E28>(), small_::<E28>(), p8_::<E28>(), p16_::<E28>()]));
    v.push(ty::<Option<E28>>("Option<E28>: enum E28 { Mid { m: Tri }, Zed }", vec![u8_::<Option<E28>>(), u16_::<Option<E28>>(), u32_::<Option<E28>>(), u64_::<Option<E28>>(), u128_::<Option<E28>>(), small_::<Option<E28>>(), p8_::<Option<E28>>(), p16_::<Option<E28>>()]));
    v.push(ty::<E36>("E36: enum E36 { Mid, Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<E36>(), u16_::<E36>(), u32_::<E36>(), u64_::<E36>(), u128_::<E36>(), small_::<E36>(), p8_::<E36>(), p16_::<E36>()]));
    v.push(ty::<(E36, bool)>("(E36, bool): enum E36 { Mid, Zed { m: bool, z: Tri }, Alpha(Tri, Two, Tri) }", vec![u8_::<(E36, bool)>(), u16_::<(E36, bool)>(), u32_::<(E36, bool)>(), u64_::<(E36, bool)>(), u128_::<(E36, bool)>(), small_::<(E36, bool)>(), p8_::<(E36, bool)>(), p16_::<(E36, bool)>()]));
    v.push(ty::<E44>("E44: enum E44 { Mid(bool), Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }", vec![u8_::<E44>(), u16_::<E44>(), u32_::<E44>(), u64_::<E44>(), u128_::<E44>(), small_::<E44>(), p8_::<E44>(), p16_::<E44>()]));
    v.push(ty::<Result<E44, Tri>>("Result<E44, Tri>: enum E44 { Mid(bool), Zed { m: Never, z: bool }, Alpha { m: bool, z: Tri } }", vec![u8_::<Result<E44, Tri>>(), u16_::<Result<E44, Tri>>(), u32_::<Result<E44, Tri>>(), u64_::<Result<E44, Tri>>(), u128_::<Result<E44, Tri>>(), small_::<Result<E44, Tri>>(), p8_::<Result<E44, Tri>>(), p16_::<Result<E44, Tri>>()]));
    v.push(ty::<E52>("E52: enum E52 { Mid { m: Tri }, Zed(bool), Alpha { m: Tri } }", vec![u8_::<E52>(), u16_::<E52>(), u32_::<E52>(), u64_::<E52>(), u128_::<E52>(), small_::<E52>(), p8_::<E52>(), p16_::<E52>()]));
    v.push(ty::<[E52; 2]>("[E52; 2]: enum E52 { Mid { m: Tri }, Zed(bool), Alpha { m: Tri } }", vec![u8_::<[E52; 2]>(), u16_::<[E52; 2]>(), u32_::<[E52; 2]>(), u64_::<[E52; 2]>(), u128_::<[E52; 2]>(), small_::<[E52; 2]>(), p8_::<[E52; 2]>(), p16_::<[E52; 2]>()]));
    v.push(ty::<E60>("E60: enum E60 { Mid(Tri, bool), Zed(Tri, bool), Alpha(bool) }", vec![u8_::<E60>(), u16_::<E60>(), u32_::<E60>(), u64_::<E60>(), u128_::<E60>(), small_::<E60>(), p8_::<E60>(), p16_::<E60>()]));
    v.push(ty::<Option<(Tri, E60)>>("Option<(Tri, E60)>: enum E60 { Mid(Tri, bool), Zed(Tri, bool), Alpha(bool) }", vec![u8_::<Option<(Tri, E60)>>(), u16_::<Option<(Tri, E60)>>(), u32_::<Option<(Tri, E60)>>(), u64_::<Option<(Tri, E60)>>(), u128_::<Option<(Tri, E60)>>(), small_::<Option<(Tri, E60)>>(), p8_::<Option<(Tri, E60)>>(), p16_::<Option<(Tri, E60)>>()]));
    v.push(ty::<E68>("E68: enum E68 { Mid { m: bool, z: Tri }, Zed(()), Alpha(Option<bool>) }", vec![u8_::<E68>(), u16_::<E68>(), u32_::<E68>(), u64_::<E68>(), u128_::<E68>(), small_::<E68>(), p8_::<E68>(), p16_::<E68>()]));
    v.push(ty::<(E68,)>("(E68,): enum E68 { Mid { m: bool, z: Tri }, Zed(()), Alpha(Option<bool>) }", vec![u8_::<(E68,)>(), u16_::<(E68,)>(), u32_::<(E68,)>(), u64_::<(E68,)>(), u128_::<(E68,)>(), small_::<(E68,)>(), p8_::<(E68,)>(), p16_::<(E68,)>()]));
    v.push(ty::<E76>("E76: enum E76 { Mid(()), Zed(Option<bool>), Alpha(Tri, Two, Tri) }", vec![u8_::<E76>(), u16_::<E76>(), u32_::<E76>(), u64_::<E76>(), u128_::<E76>(), small_::<E76>(), p8_::<E76>(), p16_::<E76>()]));
    v.push(ty::<Result<bool, [E76; 1]>>("Result<bool, [E76; 1]>: enum E76 { Mid(()), Zed(Option<bool>), Alpha(Tri, Two, Tri) }", vec![u8_::<Result<bool, [E76; 1]>>(), u16_::<Result<bool, [E76; 1]>>(), u32_::<Result<bool, [E76; 1]>>(), u64_::<Result<bool, [E76; 1]>>(), u128_::<Result<bool, [E76; 1]>>(), small_::<Result<bool, [E76; 1]>>(), p8_::<Result<bool, [E76; 1]>>(), p16_::<Result<bool, [E76; 1]>>()]));
    v.push(ty::<E84>("E84: enum E84 { Mid { m: Never, z: bool }, Zed(Never), Alpha { m: bool, z: Tri } }", vec![u8_::<E84>(), u16_::<E84>(), u32_::<E84>(), u64_::<E84>(), u128_::<E84>(), small_::<E84>(), p8_::<E84>(), p16_::<E84>()]));
    v.push(ty::<Option<E84>>("Option<E84>: enum E84 { Mid { m: Never, z: bool }, Zed(Never), Alpha { m: bool, z: Tri } }", vec![u8_::<Option<E84>>(), u16_::<Option<E84>>(), u32_::<Option<E84>>(), u64_::<Option<E84>>(), u128_::<Option<E84>>(), small_::<Option<E84>>(), p8_::<Option<E84>>(), p16_::<Option<E84>>()]));
    v.push(ty::<E92>("E92: enum E92 { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha { m: Tri } }", vec![u8_::<E92>(), u16_::<E92>(), u32_::<E92>(), u64_::<E92>(), u128_::<E92>(), small_::<E92>(), p8_::<E92>(), p16_::<E92>()]));
    v.push(ty::<(E92, bool)>("(E92, bool): enum E92 { Mid(Option<bool>), Zed { m: bool, z: Tri }, Alpha { m: Tri } }", vec![u8_::<(E92, bool)>(), u16_::<(E92, bool)>(), u32_::<(E92, bool)>(), u64_::<(E92, bool)>(), u128_::<(E92, bool)>(), small_::<(E92, bool)>(), p8_::<(E92, bool)>(), p16_::<(E92, bool)>()]));
    v.push(ty::<E100>("E100: enum E100 { Mid, Zed(Never), Alpha(Tri), Quux { m: bool, z: Tri } }", vec![u8_::<E100>(), u16_::<E100>(), u32_::<E100>(), u64_::<E100>(), u128_::<E100>(), small_::<E100>(), p8_::<E100>(), p16_::<E100>()]));
    v.push(ty::<Result<E100, Tri>>("Result<E100, Tri>: enum E100 { Mid, Zed(Never), Alpha(Tri), Quux { m: bool, z: Tri } }", vec![u8_::<Result<E100, Tri>>(), u16_::<Result<E100, Tri>>(), u32_::<Result<E100, Tri>>(), u64_::<Result<E100, Tri>>(), u128_::<Result<E100, Tri>>(), small_::<Result<E100, Tri>>(), p8_::<Result<E100, Tri>>(), p16_::<Result<E100, Tri>>()]));
    v.push(ty::<E108>("E108: enum E108 { Mid(Tri), Zed(Never), Alpha { m: bool, z: Tri }, Quux }", vec![u8_::<E108>(), u16_::<E108>(), u32_::<E108>(), u64_::<E108>(), u128_::<E108>(), small_::<E108>(), p8_::<E108>(), p16_::<E108>()]));
    v.push(ty::<[E108; 2]>("[E108; 2]: enum E108 { Mid(Tri), Zed(Never), Alpha { m: bool, z: Tri }, Quux }", vec![u8_::<[E108; 2]>(), u16_::<[E108; 2]>(), u32_::<[E108; 2]>(), u64_::<[E108; 2]>(), u128_::<[E108; 2]>(), small_::<[E108; 2]>(), p8_::<[E108; 2]>(), p16_::<[E108; 2]>()]));
    v.push(ty::<E116>("E116: enum E116 { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Never) }", vec![u8_::<E116>(), u16_::<E116>(), u32_::<E116>(), u64_::<E116>(), u128_::<E116>(), small_::<E116>(), p8_::<E116>(), p16_::<E116>()]));
    v.push(ty::<Option<(Tri, E116)>>("Option<(Tri, E116)>: enum E116 { Mid { m: bool, z: Tri }, Zed(Never), Alpha { m: bool, z: Tri }, Quux(Never) }", vec![u8_::<Option<(Tri, E116)>>(), u16_::<Option<(Tri, E116)>>(), u32_::<Option<(Tri, E116)>>(), u64_::<Option<(Tri, E116)>>(), u128_::<Option<(Tri, E116)>>(), small_::<Option<(Tri, E116)>>(), p8_::<Option<(Tri, E116)>>(), p16_::<Option<(Tri, E116)>>()]));
    v.push(ty::<E124>("E124: enum E124 { Mid(Never), Zed(Never), Alpha(Never), Quux(Tri) }", vec![u8_::<E124>(), u16_::<E124>(), u32_::<E124>(), u64_::<E124>(), u128_::<E124>(), small_::<E124>(), p8_::<E124>(), p16_::<E124>()]));
    v.push(ty::<(E124,)>("(E124,): enum E124 { Mid(Never), Zed(Never), Alpha(Never), Quux(Tri) }", vec![u8_::<(E124,)>(), u16_::<(E124,)>(), u32_::<(E124,)>(), u64_::<(E124,)>(), u128_::<(E124,)>(), small_::<(E124,)>(), p8_::<(E124,)>(), p16_::<(E124,)>()]));
    v.push(ty::<E132>("E132: enum E132 { Mid(Two), Zed(Never), Alpha(Never), Quux(Two) }", vec![u8_::<E132>(), u16_::<E132>(), u32_::<E132>(), u64_::<E132>(), u128_::<E132>(), small_::<E132>(), p8_::<E132>(), p16_::<E132>()]));
    v.push(ty::<Result<bool, [E132; 1]>>("Result<bool, [E132; 1]>: enum E132 { Mid(Two), Zed(Never), Alpha(Never), Quux(Two) }", vec![u8_::<Result<bool, [E132; 1]>>(), u16_::<Result<bool, [E132; 1]>>(), u32_::<Result<bool, [E132; 1]>>(), u64_::<Result<bool, [E132; 1]>>(), u128_::<Result<bool, [E132; 1]>>(), small_::<Result<bool, [E132; 1]>>(), p8_::<Result<bool, [E132; 1]>>(), p16_::<Result<bool, [E132; 1]>>()]));
    v.push(ty::<E140>("E140: enum E140 { Mid, Zed { m: [Tri;0], z: Tri }, Alpha(Tri, [Tri;0]), Quux }", vec![u8_::<E140>(), u16_::<E140>(), u32_::<E140>(), u64_::<E140>(), u128_::<E140>(), small_::<E140>(), p8_::<E140>(), p16_::<E140>()]));
    v.push(ty::<Option<E140>>("Option<E140>: enum E140 { Mid, Zed { m: [Tri;0], z: Tri }, Alpha(Tri, [Tri;0]), Quux }", vec![u8_::<Option<E140>>(), u16_::<Option<E140>>(), u32_::<Option<E140>>(), u64_::<Option<E140>>(), u128_::<Option<E140>>(), small_::<Option<E140>>(), p8_::<Option<E140>>(), p16_::<Option<E140>>()]));
    v.push(ty::<S148>("S148: struct S148 { m: (), z: (), a: Five }", vec![u8_::<S148>(), u16_::<S148>(), u32_::<S148>(), u64_::<S148>(), u128_::<S148>(), small_::<S148>(), p8_::<S148>(), p16_::<S148>()]));
    v.push(ty::<(S148, bool)>("(S148, bool): struct S148 { m: (), z: (), a: Five }", vec![u8_::<(S148, bool)>(), u16_::<(S148, bool)>(), u32_::<(S148, bool)>(), u64_::<(S148, bool)>(), u128_::<(S148, bool)>(), small_::<(S148, bool)>(), p8_::<(S148, bool)>(), p16_::<(S148, bool)>()]));
    v.push(ty::<S156>("S156: struct S156 { m: Never, z: Tri, a: Tri }", vec![]));
    v.push(ty::<Result<S156, Tri>>("Result<S156, Tri>: struct S156 { m: Never, z: Tri, a: Tri }", vec![u8_::<Result<S156, Tri>>(), u16_::<Result<S156, Tri>>(), u32_::<Result<S156, Tri>>(), u64_::<Result<S156, Tri>>(), u128_::<Result<S156, Tri>>(), small_::<Result<S156, Tri>>(), p8_::<Result<S156, Tri>>(), p16_::<Result<S156, Tri>>()]));
    v.push(ty::<S164>("S164: struct S164 { m: bool, z: bool, a: (), q: Tri }", vec![u8_::<S164>(), u16_::<S164>(), u32_::<S164>(), u64_::<S164>(), u128_::<S164>(), small_::<S164>(), p8_::<S164>(), p16_::<S164>()]));
    v.push(ty::<[S164; 2]>("[S164; 2]: struct S164 { m: bool, z: bool, a: (), q: Tri }", vec![u8_::<[S164; 2]>(), u16_::<[S164; 2]>(), u32_::<[S164; 2]>(), u64_::<[S164; 2]>(), u128_::<[S164; 2]>(), small_::<[S164; 2]>(), p8_::<[S164; 2]>(), p16_::<[S164; 2]>()]));
    v.push(ty::<S172>("S172: struct S172 (Tri, (), Two, Tri, (), Two, Tri, ()) ;", vec![u8_::<S172>(), u16_::<S172>(), u32_::<S172>(), u64_::<S172>(), u128_::<S172>(), small_::<S172>(), p8_::<S172>(), p16_::<S172>()]));
    v.push(ty::<Option<(Tri, S172)>>("Option<(Tri, S172)>: struct S172 (Tri, (), Two, Tri, (), Two, Tri, ()) ;", vec![u16_::<Option<(Tri, S172)>>(), u32_::<Option<(Tri, S172)>>(), u64_::<Option<(Tri, S172)>>(), u128_::<Option<(Tri, S172)>>(), small_::<Option<(Tri, S172)>>(), p16_::<Option<(Tri, S172)>>()]));
    v.push(ty::<E180<()>>("E180<()>: enum E180<A> { Mid(A, A), Zed { m: A, z: Tri, a: A } }", vec![u8_::<E180<()>>(), u16_::<E180<()>>(), u32_::<E180<()>>(), u64_::<E180<()>>(), u128_::<E180<()>>(), small_::<E180<()>>(), p8_::<E180<()>>(), p16_::<E180<()>>()]));
    v.push(ty::<E180<Never>>("E180<Never>: enum E180<A> { Mid(A, A), Zed { m: A, z: Tri, a: A } }", vec![]));
    v.push(ty::<(E180<Never>,)>("(E180<Never>,): enum E180<A> { Mid(A, A), Zed { m: A, z: Tri, a: A } }", vec![]));
    v.push(ty::<bool>("bool", vec![u8_::<bool>(), u16_::<bool>(), u32_::<bool>(), u64_::<bool>(), u128_::<bool>(), small_::<bool>(), p8_::<bool>(), p16_::<bool>()]));
    v.push(ty::<((), ())>("((), ())", vec![p8_::<((), ())>(), p16_::<((), ())>()]));
    v.push(ty::<Option<bool>>("Option<bool>", vec![u8_::<Option<bool>>(), u16_::<Option<bool>>(), u32_::<Option<bool>>(), u64_::<Option<bool>>(), u128_::<Option<bool>>(), small_::<Option<bool>>(), p8_::<Option<bool>>(), p16_::<Option<bool>>()]));
    v.push(ty::<Result<bool, Tri>>("Result<bool, Tri>", vec![u8_::<Result<bool, Tri>>(), u16_::<Result<bool, Tri>>(), u32_::<Result<bool, Tri>>(), u64_::<Result<bool, Tri>>(), u128_::<Result<bool, Tri>>(), small_::<Result<bool, Tri>>(), p8_::<Result<bool, Tri>>(), p16_::<Result<bool, Tri>>()]));
    v.push(ty::<(Tri, bool)>("(Tri, bool)", vec![u8_::<(Tri, bool)>(), u16_::<(Tri, bool)>(), u32_::<(Tri, bool)>(), u64_::<(Tri, bool)>(), u128_::<(Tri, bool)>(), small_::<(Tri, bool)>(), p8_::<(Tri, bool)>(), p16_::<(Tri, bool)>()]));
    v.push(ty::<[Five; 0]>("[Five; 0]", vec![p8_::<[Five; 0]>(), p16_::<[Five; 0]>()]));
    v.push(ty::<Result<Five, Five>>("Result<Five, Five>", vec![u8_::<Result<Five, Five>>(), u16_::<Result<Five, Five>>(), u32_::<Result<Five, Five>>(), u64_::<Result<Five, Five>>(), u128_::<Result<Five, Five>>(), small_::<Result<Five, Five>>(), p8_::<Result<Five, Five>>(), p16_::<Result<Five, Five>>()]));
    v.push(ty::<(Never, Tri)>("(Never, Tri)", vec![]));
    v.push(ty::<Result<D17, ()>>("Result<D17, ()>", vec![u8_::<Result<D17, ()>>(), u16_::<Result<D17, ()>>(), u32_::<Result<D17, ()>>(), u64_::<Result<D17, ()>>(), u128_::<Result<D17, ()>>(), small_::<Result<D17, ()>>(), p8_::<Result<D17, ()>>(), p16_::<Result<D17, ()>>()]));
    v.push(ty::<([(); 3], Result<(), Five>)>("([(); 3], Result<(), Five>)", vec![u8_::<([(); 3], Result<(), Five>)>(), u16_::<([(); 3], Result<(), Five>)>(), u32_::<([(); 3], Result<(), Five>)>(), u64_::<([(); 3], Result<(), Five>)>(), u128_::<([(); 3], Result<(), Five>)>(), small_::<([(); 3], Result<(), Five>)>(), p8_::<([(); 3], Result<(), Five>)>(), p16_::<([(); 3], Result<(), Five>)>()]));
    v.push(ty::<(((), Five), bool, Option<()>)>("(((), Five), bool, Option<()>)", vec![u8_::<(((), Five), bool, Option<()>)>(), u16_::<(((), Five), bool, Option<()>)>(), u32_::<(((), Five), bool, Option<()>)>(), u64_::<(((), Five), bool, Option<()>)>(), u128_::<(((), Five), bool, Option<()>)>(), small_::<(((), Five), bool, Option<()>)>(), p8_::<(((), Five), bool, Option<()>)>(), p16_::<(((), Five), bool, Option<()>)>()]));
    v.push(ty::<Result<Result<bool, bool>, [D17; 3]>>("Result<Result<bool, bool>, [D17; 3]>", vec![u16_::<Result<Result<bool, bool>, [D17; 3]>>(), u32_::<Result<Result<bool, bool>, [D17; 3]>>(), u64_::<Result<Result<bool, bool>, [D17; 3]>>(), u128_::<Result<Result<bool, bool>, [D17; 3]>>(), small_::<Result<Result<bool, bool>, [D17; 3]>>(), p16_::<Result<Result<bool, bool>, [D17; 3]>>()]));
    v.push(ty::<Option<(Tri, ())>>("Option<(Tri, ())>", vec![u8_::<Option<(Tri, ())>>(), u16_::<Option<(Tri, ())>>(), u32_::<Option<(Tri, ())>>(), u64_::<Option<(Tri, ())>>(), u128_::<Option<(Tri, ())>>(), small_::<Option<(Tri, ())>>(), p8_::<Option<(Tri, ())>>(), p16_::<Option<(Tri, ())>>()]));
    v.push(ty::<[Option<Five>; 2]>("[Option<Five>; 2]", vec![u8_::<[Option<Five>; 2]>(), u16_::<[Option<Five>; 2]>(), u32_::<[Option<Five>; 2]>(), u64_::<[Option<Five>; 2]>(), u128_::<[Option<Five>; 2]>(), small_::<[Option<Five>; 2]>(), p8_::<[Option<Five>; 2]>(), p16_::<[Option<Five>; 2]>()]));
    v.push(ty::<(Result<Five, Tri>, Result<Tri, ()>)>("(Result<Five, Tri>, Result<Tri, ()>)", vec![u8_::<(Result<Five, Tri>, Result<Tri, ()>)>(), u16_::<(Result<Five, Tri>, Result<Tri, ()>)>(), u32_::<(Result<Five, Tri>, Result<Tri, ()>)>(), u64_::<(Result<Five, Tri>, Result<Tri, ()>)>(), u128_::<(Result<Five, Tri>, Result<Tri, ()>)>(), small_::<(Result<Five, Tri>, Result<Tri, ()>)>(), p8_::<(Result<Five, Tri>, Result<Tri, ()>)>(), p16_::<(Result<Five, Tri>, Result<Tri, ()>)>()]));
    v.push(ty::<((Never, bool), bool, (bool, bool))>("((Never, bool), bool, (bool, bool))", vec![]));
    v.push(ty::<Result<[D17; 0], Result<(), bool>>>("Result<[D17; 0], Result<(), bool>>", vec![u8_::<Result<[D17; 0], Result<(), bool>>>(), u16_::<Result<[D17; 0], Result<(), bool>>>(), u32_::<Result<[D17; 0], Result<(), bool>>>(), u64_::<Result<[D17; 0], Result<(), bool>>>(), u128_::<Result<[D17; 0], Result<(), bool>>>(), small_::<Result<[D17; 0], Result<(), bool>>>(), p8_::<Result<[D17; 0], Result<(), bool>>>(), p16_::<Result<[D17; 0], Result<(), bool>>>()]));
    v.push(ty::<Option<Result<D17, Five>>>("Option<Result<D17, Five>>", vec![u8_::<Option<Result<D17, Five>>>(), u16_::<Option<Result<D17, Five>>>(), u32_::<Option<Result<D17, Five>>>(), u64_::<Option<Result<D17, Five>>>(), u128_::<Option<Result<D17, Five>>>(), small_::<Option<Result<D17, Five>>>(), p8_::<Option<Result<D17, Five>>>(), p16_::<Option<Result<D17, Five>>>()]));
    v.push(ty::<[bool; 32]>("[bool; 32]", vec![u32_::<[bool; 32]>(), u64_::<[bool; 32]>(), u128_::<[bool; 32]>(), small_::<[bool; 32]>()]));
    v.push(ty::<Option<(Byte, Byte)>>("Option<(Byte, Byte)>", vec![u32_::<Option<(Byte, Byte)>>(), u64_::<Option<(Byte, Byte)>>(), u128_::<Option<(Byte, Byte)>>(), small_::<Option<(Byte, Byte)>>()]));
}
