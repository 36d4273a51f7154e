// generated by tools/gen_e2e.py
#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]
use e2esut::*;
use enum_like_derive::EnumLike;
#[derive(Clone, Copy, EnumLike)]
pub enum E7  { Mid, Zed, Alpha, Quux, Beta, Yard, Core }
impl Spec for E7 {
    fn count() -> u128 { 7u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E7::Mid; } i -= 1;
        if i == 0 { return E7::Zed; } i -= 1;
        if i == 0 { return E7::Alpha; } i -= 1;
        if i == 0 { return E7::Quux; } i -= 1;
        if i == 0 { return E7::Beta; } i -= 1;
        if i == 0 { return E7::Yard; } i -= 1;
        if i == 0 { return E7::Core; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E7::Mid => 0u128,
            E7::Zed => 1u128,
            E7::Alpha => 2u128,
            E7::Quux => 3u128,
            E7::Beta => 4u128,
            E7::Yard => 5u128,
            E7::Core => 6u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E15  { V600, V599, V598, V597, V596, V595, V594, V593, V592, V591, V590, V589, V588, V587, V586, V585, V584, V583, V582, V581, V580, V579, V578, V577, V576, V575, V574, V573, V572, V571, V570, V569, V568, V567, V566, V565, V564, V563, V562, V561, V560, V559, V558, V557, V556, V555, V554, V553, V552, V551, V550, V549, V548, V547, V546, V545, V544, V543, V542, V541, V540, V539, V538, V537, V536, V535, V534, V533, V532, V531, V530, V529, V528, V527, V526, V525, V524, V523, V522, V521, V520, V519, V518, V517, V516, V515, V514, V513, V512, V511, V510, V509, V508, V507, V506, V505, V504, V503, V502, V501, V500, V499, V498, V497, V496, V495, V494, V493, V492, V491, V490, V489, V488, V487, V486, V485, V484, V483, V482, V481, V480, V479, V478, V477, V476, V475, V474, V473, V472, V471, V470, V469, V468, V467, V466, V465, V464, V463, V462, V461, V460, V459, V458, V457, V456, V455, V454, V453, V452, V451, V450, V449, V448, V447, V446, V445, V444, V443, V442, V441, V440, V439, V438, V437, V436, V435, V434, V433, V432, V431, V430, V429, V428, V427, V426, V425, V424, V423, V422, V421, V420, V419, V418, V417, V416, V415, V414, V413, V412, V411, V410, V409, V408, V407, V406, V405, V404, V403, V402, V401, V400, V399, V398, V397, V396, V395, V394, V393, V392, V391, V390, V389, V388, V387, V386, V385, V384, V383, V382, V381, V380, V379, V378, V377, V376, V375, V374, V373, V372, V371, V370, V369, V368, V367, V366, V365, V364, V363, V362, V361, V360, V359, V358, V357, V356, V355, V354, V353, V352, V351, V350, V349, V348, V347, V346, V345, V344, V343, V342, V341, V340, V339, V338, V337, V336, V335, V334, V333, V332, V331, V330, V329, V328, V327, V326, V325, V324, V323, V322, V321, V320, V319, V318, V317, V316, V315, V314, V313, V312, V311, V310, V309, V308, V307, V306, V305, V304, V303, V302, V301, V300, V299, V298, V297, V296, V295, V294, V293, V292, V291, V290, V289, V288, V287, V286, V285, V284, V283, V282, V281, V280, V279, V278, V277, V276, V275, V274, V273, V272, V271, V270, V269, V268, V267, V266, V265, V264, V263, V262, V261, V260, V259, V258, V257, V256, V255, V254, V253, V252, V251, V250, V249, V248, V247, V246, V245, V244, V243, V242, V241, V240, V239, V238, V237, V236, V235, V234, V233, V232, V231, V230, V229, V228, V227, V226, V225, V224, V223, V222, V221, V220, V219, V218, V217, V216, V215, V214, V213, V212, V211, V210, V209, V208, V207, V206, V205, V204, V203, V202, V201, V200, V199, V198, V197, V196, V195, V194, V193, V192, V191, V190, V189, V188, V187, V186, V185, V184, V183, V182, V181, V180, V179, V178, V177, V176, V175, V174, V173, V172, V171, V170, V169, V168, V167, V166, V165, V164, V163, V162, V161, V160, V159, V158, V157, V156, V155, V154, V153, V152, V151, V150, V149, V148, V147, V146, V145, V144, V143, V142, V141, V140, V139, V138, V137, V136, V135, V134, V133, V132, V131, V130, V129, V128, V127, V126, V125, V124, V123, V122, V121, V120, V119, V118, V117, V116, V115, V114, V113, V112, V111, V110, V109, V108, V107, V106, V105, V104, V103, V102, V101, V100, V99, V98, V97, V96, V95, V94, V93, V92, V91, V90, V89, V88, V87, V86, V85, V84, V83, V82, V81, V80, V79, V78, V77, V76, V75, V74, V73, V72, V71, V70, V69, V68, V67, V66, V65, V64, V63, V62, V61, V60, V59, V58, V57, V56, V55, V54, V53, V52, V51, V50, V49, V48, V47, V46, V45, V44, V43, V42, V41, V40, V39, V38, V37, V36, V35, V34, V33, V32, V31, V30, V29, V28, V27, V26, V25, V24, V23, V22, V21, V20, V19, V18, V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1 }
impl Spec for E15 {
    fn count() -> u128 { 600u128 }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E15::V600; } i -= 1;
        if i == 0 { return E15::V599; } i -= 1;
        if i == 0 { return E15::V598; } i -= 1;
        if i == 0 { return E15::V597; } i -= 1;
        if i == 0 { return E15::V596; } i -= 1;
        if i == 0 { return E15::V595; } i -= 1;
        if i == 0 { return E15::V594; } i -= 1;
        if i == 0 { return E15::V593; } i -= 1;
        if i == 0 { return E15::V592; } i -= 1;
        if i == 0 { return E15::V591; } i -= 1;
        if i == 0 { return E15::V590; } i -= 1;
        if i == 0 { return E15::V589; } i -= 1;
        if i == 0 { return E15::V588; } i -= 1;
        if i == 0 { return E15::V587; } i -= 1;
        if i == 0 { return E15::V586; } i -= 1;
        if i == 0 { return E15::V585; } i -= 1;
        if i == 0 { return E15::V584; } i -= 1;
        if i == 0 { return E15::V583; } i -= 1;
        if i == 0 { return E15::V582; } i -= 1;
        if i == 0 { return E15::V581; } i -= 1;
        if i == 0 { return E15::V580; } i -= 1;
        if i == 0 { return E15::V579; } i -= 1;
        if i == 0 { return E15::V578; } i -= 1;
        if i == 0 { return E15::V577; } i -= 1;
        if i == 0 { return E15::V576; } i -= 1;
        if i == 0 { return E15::V575; } i -= 1;
        if i == 0 { return E15::V574; } i -= 1;
        if i == 0 { return E15::V573; } i -= 1;
        if i == 0 { return E15::V572; } i -= 1;
        if i == 0 { return E15::V571; } i -= 1;
        if i == 0 { return E15::V570; } i -= 1;
        if i == 0 { return E15::V569; } i -= 1;
        if i == 0 { return E15::V568; } i -= 1;
        if i == 0 { return E15::V567; } i -= 1;
        if i == 0 { return E15::V566; } i -= 1;
        if i == 0 { return E15::V565; } i -= 1;
        if i == 0 { return E15::V564; } i -= 1;
        if i == 0 { return E15::V563; } i -= 1;
        if i == 0 { return E15::V562; } i -= 1;
        if i == 0 { return E15::V561; } i -= 1;
        if i == 0 { return E15::V560; } i -= 1;
        if i == 0 { return E15::V559; } i -= 1;
        if i == 0 { return E15::V558; } i -= 1;
        if i == 0 { return E15::V557; } i -= 1;
        if i == 0 { return E15::V556; } i -= 1;
        if i == 0 { return E15::V555; } i -= 1;
        if i == 0 { return E15::V554; } i -= 1;
        if i == 0 { return E15::V553; } i -= 1;
        if i == 0 { return E15::V552; } i -= 1;
        if i == 0 { return E15::V551; } i -= 1;
        if i == 0 { return E15::V550; } i -= 1;
        if i == 0 { return E15::V549; } i -= 1;
        if i == 0 { return E15::V548; } i -= 1;
        if i == 0 { return E15::V547; } i -= 1;
        if i == 0 { return E15::V546; } i -= 1;
        if i == 0 { return E15::V545; } i -= 1;
        if i == 0 { return E15::V544; } i -= 1;
        if i == 0 { return E15::V543; } i -= 1;
        if i == 0 { return E15::V542; } i -= 1;
        if i == 0 { return E15::V541; } i -= 1;
        if i == 0 { return E15::V540; } i -= 1;
        if i == 0 { return E15::V539; } i -= 1;
        if i == 0 { return E15::V538; } i -= 1;
        if i == 0 { return E15::V537; } i -= 1;
        if i == 0 { return E15::V536; } i -= 1;
        if i == 0 { return E15::V535; } i -= 1;
        if i == 0 { return E15::V534; } i -= 1;
        if i == 0 { return E15::V533; } i -= 1;
        if i == 0 { return E15::V532; } i -= 1;
        if i == 0 { return E15::V531; } i -= 1;
        if i == 0 { return E15::V530; } i -= 1;
        if i == 0 { return E15::V529; } i -= 1;
        if i == 0 { return E15::V528; } i -= 1;
        if i == 0 { return E15::V527; } i -= 1;
        if i == 0 { return E15::V526; } i -= 1;
        if i == 0 { return E15::V525; } i -= 1;
        if i == 0 { return E15::V524; } i -= 1;
        if i == 0 { return E15::V523; } i -= 1;
        if i == 0 { return E15::V522; } i -= 1;
        if i == 0 { return E15::V521; } i -= 1;
        if i == 0 { return E15::V520; } i -= 1;
        if i == 0 { return E15::V519; } i -= 1;
        if i == 0 { return E15::V518; } i -= 1;
        if i == 0 { return E15::V517; } i -= 1;
        if i == 0 { return E15::V516; } i -= 1;
        if i == 0 { return E15::V515; } i -= 1;
        if i == 0 { return E15::V514; } i -= 1;
        if i == 0 { return E15::V513; } i -= 1;
        if i == 0 { return E15::V512; } i -= 1;
        if i == 0 { return E15::V511; } i -= 1;
        if i == 0 { return E15::V510; } i -= 1;
        if i == 0 { return E15::V509; } i -= 1;
        if i == 0 { return E15::V508; } i -= 1;
        if i == 0 { return E15::V507; } i -= 1;
        if i == 0 { return E15::V506; } i -= 1;
        if i == 0 { return E15::V505; } i -= 1;
        if i == 0 { return E15::V504; } i -= 1;
        if i == 0 { return E15::V503; } i -= 1;
        if i == 0 { return E15::V502; } i -= 1;
        if i == 0 { return E15::V501; } i -= 1;
        if i == 0 { return E15::V500; } i -= 1;
        if i == 0 { return E15::V499; } i -= 1;
        if i == 0 { return E15::V498; } i -= 1;
        if i == 0 { return E15::V497; } i -= 1;
        if i == 0 { return E15::V496; } i -= 1;
        if i == 0 { return E15::V495; } i -= 1;
        if i == 0 { return E15::V494; } i -= 1;
        if i == 0 { return E15::V493; } i -= 1;
        if i == 0 { return E15::V492; } i -= 1;
        if i == 0 { return E15::V491; } i -= 1;
        if i == 0 { return E15::V490; } i -= 1;
        if i == 0 { return E15::V489; } i -= 1;
        if i == 0 { return E15::V488; } i -= 1;
        if i == 0 { return E15::V487; } i -= 1;
        if i == 0 { return E15::V486; } i -= 1;
        if i == 0 { return E15::V485; } i -= 1;
        if i == 0 { return E15::V484; } i -= 1;
        if i == 0 { return E15::V483; } i -= 1;
        if i == 0 { return E15::V482; } i -= 1;
        if i == 0 { return E15::V481; } i -= 1;
        if i == 0 { return E15::V480; } i -= 1;
        if i == 0 { return E15::V479; } i -= 1;
        if i == 0 { return E15::V478; } i -= 1;
        if i == 0 { return E15::V477; } i -= 1;
        if i == 0 { return E15::V476; } i -= 1;
        if i == 0 { return E15::V475; } i -= 1;
        if i == 0 { return E15::V474; } i -= 1;
        if i == 0 { return E15::V473; } i -= 1;
        if i == 0 { return E15::V472; } i -= 1;
        if i == 0 { return E15::V471; } i -= 1;
        if i == 0 { return E15::V470; } i -= 1;
        if i == 0 { return E15::V469; } i -= 1;
        if i == 0 { return E15::V468; } i -= 1;
        if i == 0 { return E15::V467; } i -= 1;
        if i == 0 { return E15::V466; } i -= 1;
        if i == 0 { return E15::V465; } i -= 1;
        if i == 0 { return E15::V464; } i -= 1;
        if i == 0 { return E15::V463; } i -= 1;
        if i == 0 { return E15::V462; } i -= 1;
        if i == 0 { return E15::V461; } i -= 1;
        if i == 0 { return E15::V460; } i -= 1;
        if i == 0 { return E15::V459; } i -= 1;
        if i == 0 { return E15::V458; } i -= 1;
        if i == 0 { return E15::V457; } i -= 1;
        if i == 0 { return E15::V456; } i -= 1;
        if i == 0 { return E15::V455; } i -= 1;
        if i == 0 { return E15::V454; } i -= 1;
        if i == 0 { return E15::V453; } i -= 1;
        if i == 0 { return E15::V452; } i -= 1;
        if i == 0 { return E15::V451; } i -= 1;
        if i == 0 { return E15::V450; } i -= 1;
        if i == 0 { return E15::V449; } i -= 1;
        if i == 0 { return E15::V448; } i -= 1;
        if i == 0 { return E15::V447; } i -= 1;
        if i == 0 { return E15::V446; } i -= 1;
        if i == 0 { return E15::V445; } i -= 1;
        if i == 0 { return E15::V444; } i -= 1;
        if i == 0 { return E15::V443; } i -= 1;
        if i == 0 { return E15::V442; } i -= 1;
        if i == 0 { return E15::V441; } i -= 1;
        if i == 0 { return E15::V440; } i -= 1;
        if i == 0 { return E15::V439; } i -= 1;
        if i == 0 { return E15::V438; } i -= 1;
        if i == 0 { return E15::V437; } i -= 1;
        if i == 0 { return E15::V436; } i -= 1;
        if i == 0 { return E15::V435; } i -= 1;
        if i == 0 { return E15::V434; } i -= 1;
        if i == 0 { return E15::V433; } i -= 1;
        if i == 0 { return E15::V432; } i -= 1;
        if i == 0 { return E15::V431; } i -= 1;
        if i == 0 { return E15::V430; } i -= 1;
        if i == 0 { return E15::V429; } i -= 1;
        if i == 0 { return E15::V428; } i -= 1;
        if i == 0 { return E15::V427; } i -= 1;
        if i == 0 { return E15::V426; } i -= 1;
        if i == 0 { return E15::V425; } i -= 1;
        if i == 0 { return E15::V424; } i -= 1;
        if i == 0 { return E15::V423; } i -= 1;
        if i == 0 { return E15::V422; } i -= 1;
        if i == 0 { return E15::V421; } i -= 1;
        if i == 0 { return E15::V420; } i -= 1;
        if i == 0 { return E15::V419; } i -= 1;
        if i == 0 { return E15::V418; } i -= 1;
        if i == 0 { return E15::V417; } i -= 1;
        if i == 0 { return E15::V416; } i -= 1;
        if i == 0 { return E15::V415; } i -= 1;
        if i == 0 { return E15::V414; } i -= 1;
        if i == 0 { return E15::V413; } i -= 1;
        if i == 0 { return E15::V412; } i -= 1;
        if i == 0 { return E15::V411; } i -= 1;
        if i == 0 { return E15::V410; } i -= 1;
        if i == 0 { return E15::V409; } i -= 1;
        if i == 0 { return E15::V408; } i -= 1;
        if i == 0 { return E15::V407; } i -= 1;
        if i == 0 { return E15::V406; } i -= 1;
        if i == 0 { return E15::V405; } i -= 1;
        if i == 0 { return E15::V404; } i -= 1;
        if i == 0 { return E15::V403; } i -= 1;
        if i == 0 { return E15::V402; } i -= 1;
        if i == 0 { return E15::V401; } i -= 1;
        if i == 0 { return E15::V400; } i -= 1;
        if i == 0 { return E15::V399; } i -= 1;
        if i == 0 { return E15::V398; } i -= 1;
        if i == 0 { return E15::V397; } i -= 1;
        if i == 0 { return E15::V396; } i -= 1;
        if i == 0 { return E15::V395; } i -= 1;
        if i == 0 { return E15::V394; } i -= 1;
        if i == 0 { return E15::V393; } i -= 1;
        if i == 0 { return E15::V392; } i -= 1;
        if i == 0 { return E15::V391; } i -= 1;
        if i == 0 { return E15::V390; } i -= 1;
        if i == 0 { return E15::V389; } i -= 1;
        if i == 0 { return E15::V388; } i -= 1;
        if i == 0 { return E15::V387; } i -= 1;
        if i == 0 { return E15::V386; } i -= 1;
        if i == 0 { return E15::V385; } i -= 1;
        if i == 0 { return E15::V384; } i -= 1;
        if i == 0 { return E15::V383; } i -= 1;
        if i == 0 { return E15::V382; } i -= 1;
        if i == 0 { return E15::V381; } i -= 1;
        if i == 0 { return E15::V380; } i -= 1;
        if i == 0 { return E15::V379; } i -= 1;
        if i == 0 { return E15::V378; } i -= 1;
        if i == 0 { return E15::V377; } i -= 1;
        if i == 0 { return E15::V376; } i -= 1;
        if i == 0 { return E15::V375; } i -= 1;
        if i == 0 { return E15::V374; } i -= 1;
        if i == 0 { return E15::V373; } i -= 1;
        if i == 0 { return E15::V372; } i -= 1;
        if i == 0 { return E15::V371; } i -= 1;
        if i == 0 { return E15::V370; } i -= 1;
        if i == 0 { return E15::V369; } i -= 1;
        if i == 0 { return E15::V368; } i -= 1;
        if i == 0 { return E15::V367; } i -= 1;
        if i == 0 { return E15::V366; } i -= 1;
        if i == 0 { return E15::V365; } i -= 1;
        if i == 0 { return E15::V364; } i -= 1;
        if i == 0 { return E15::V363; } i -= 1;
        if i == 0 { return E15::V362; } i -= 1;
        if i == 0 { return E15::V361; } i -= 1;
        if i == 0 { return E15::V360; } i -= 1;
        if i == 0 { return E15::V359; } i -= 1;
        if i == 0 { return E15::V358; } i -= 1;
        if i == 0 { return E15::V357; } i -= 1;
        if i == 0 { return E15::V356; } i -= 1;
        if i == 0 { return E15::V355; } i -= 1;
        if i == 0 { return E15::V354; } i -= 1;
        if i == 0 { return E15::V353; } i -= 1;
        if i == 0 { return E15::V352; } i -= 1;
        if i == 0 { return E15::V351; } i -= 1;
        if i == 0 { return E15::V350; } i -= 1;
        if i == 0 { return E15::V349; } i -= 1;
        if i == 0 { return E15::V348; } i -= 1;
        if i == 0 { return E15::V347; } i -= 1;
        if i == 0 { return E15::V346; } i -= 1;
        if i == 0 { return E15::V345; } i -= 1;
        if i == 0 { return E15::V344; } i -= 1;
        if i == 0 { return E15::V343; } i -= 1;
        if i == 0 { return E15::V342; } i -= 1;
        if i == 0 { return E15::V341; } i -= 1;
        if i == 0 { return E15::V340; } i -= 1;
        if i == 0 { return E15::V339; } i -= 1;
        if i == 0 { return E15::V338; } i -= 1;
        if i == 0 { return E15::V337; } i -= 1;
        if i == 0 { return E15::V336; } i -= 1;
        if i == 0 { return E15::V335; } i -= 1;
        if i == 0 { return E15::V334; } i -= 1;
        if i == 0 { return E15::V333; } i -= 1;
        if i == 0 { return E15::V332; } i -= 1;
        if i == 0 { return E15::V331; } i -= 1;
        if i == 0 { return E15::V330; } i -= 1;
        if i == 0 { return E15::V329; } i -= 1;
        if i == 0 { return E15::V328; } i -= 1;
        if i == 0 { return E15::V327; } i -= 1;
        if i == 0 { return E15::V326; } i -= 1;
        if i == 0 { return E15::V325; } i -= 1;
        if i == 0 { return E15::V324; } i -= 1;
        if i == 0 { return E15::V323; } i -= 1;
        if i == 0 { return E15::V322; } i -= 1;
        if i == 0 { return E15::V321; } i -= 1;
        if i == 0 { return E15::V320; } i -= 1;
        if i == 0 { return E15::V319; } i -= 1;
        if i == 0 { return E15::V318; } i -= 1;
        if i == 0 { return E15::V317; } i -= 1;
        if i == 0 { return E15::V316; } i -= 1;
        if i == 0 { return E15::V315; } i -= 1;
        if i == 0 { return E15::V314; } i -= 1;
        if i == 0 { return E15::V313; } i -= 1;
        if i == 0 { return E15::V312; } i -= 1;
        if i == 0 { return E15::V311; } i -= 1;
        if i == 0 { return E15::V310; } i -= 1;
        if i == 0 { return E15::V309; } i -= 1;
        if i == 0 { return E15::V308; } i -= 1;
        if i == 0 { return E15::V307; } i -= 1;
        if i == 0 { return E15::V306; } i -= 1;
        if i == 0 { return E15::V305; } i -= 1;
        if i == 0 { return E15::V304; } i -= 1;
        if i == 0 { return E15::V303; } i -= 1;
        if i == 0 { return E15::V302; } i -= 1;
        if i == 0 { return E15::V301; } i -= 1;
        if i == 0 { return E15::V300; } i -= 1;
        if i == 0 { return E15::V299; } i -= 1;
        if i == 0 { return E15::V298; } i -= 1;
        if i == 0 { return E15::V297; } i -= 1;
        if i == 0 { return E15::V296; } i -= 1;
        if i == 0 { return E15::V295; } i -= 1;
        if i == 0 { return E15::V294; } i -= 1;
        if i == 0 { return E15::V293; } i -= 1;
        if i == 0 { return E15::V292; } i -= 1;
        if i == 0 { return E15::V291; } i -= 1;
        if i == 0 { return E15::V290; } i -= 1;
        if i == 0 { return E15::V289; } i -= 1;
        if i == 0 { return E15::V288; } i -= 1;
        if i == 0 { return E15::V287; } i -= 1;
        if i == 0 { return E15::V286; } i -= 1;
        if i == 0 { return E15::V285; } i -= 1;
        if i == 0 { return E15::V284; } i -= 1;
        if i == 0 { return E15::V283; } i -= 1;
        if i == 0 { return E15::V282; } i -= 1;
        if i == 0 { return E15::V281; } i -= 1;
        if i == 0 { return E15::V280; } i -= 1;
        if i == 0 { return E15::V279; } i -= 1;
        if i == 0 { return E15::V278; } i -= 1;
        if i == 0 { return E15::V277; } i -= 1;
        if i == 0 { return E15::V276; } i -= 1;
        if i == 0 { return E15::V275; } i -= 1;
        if i == 0 { return E15::V274; } i -= 1;
        if i == 0 { return E15::V273; } i -= 1;
        if i == 0 { return E15::V272; } i -= 1;
        if i == 0 { return E15::V271; } i -= 1;
        if i == 0 { return E15::V270; } i -= 1;
        if i == 0 { return E15::V269; } i -= 1;
        if i == 0 { return E15::V268; } i -= 1;
        if i == 0 { return E15::V267; } i -= 1;
        if i == 0 { return E15::V266; } i -= 1;
        if i == 0 { return E15::V265; } i -= 1;
        if i == 0 { return E15::V264; } i -= 1;
        if i == 0 { return E15::V263; } i -= 1;
        if i == 0 { return E15::V262; } i -= 1;
        if i == 0 { return E15::V261; } i -= 1;
        if i == 0 { return E15::V260; } i -= 1;
        if i == 0 { return E15::V259; } i -= 1;
        if i == 0 { return E15::V258; } i -= 1;
        if i == 0 { return E15::V257; } i -= 1;
        if i == 0 { return E15::V256; } i -= 1;
        if i == 0 { return E15::V255; } i -= 1;
        if i == 0 { return E15::V254; } i -= 1;
        if i == 0 { return E15::V253; } i -= 1;
        if i == 0 { return E15::V252; } i -= 1;
        if i == 0 { return E15::V251; } i -= 1;
        if i == 0 { return E15::V250; } i -= 1;
        if i == 0 { return E15::V249; } i -= 1;
        if i == 0 { return E15::V248; } i -= 1;
        if i == 0 { return E15::V247; } i -= 1;
        if i == 0 { return E15::V246; } i -= 1;
        if i == 0 { return E15::V245; } i -= 1;
        if i == 0 { return E15::V244; } i -= 1;
        if i == 0 { return E15::V243; } i -= 1;
        if i == 0 { return E15::V242; } i -= 1;
        if i == 0 { return E15::V241; } i -= 1;
        if i == 0 { return E15::V240; } i -= 1;
        if i == 0 { return E15::V239; } i -= 1;
        if i == 0 { return E15::V238; } i -= 1;
        if i == 0 { return E15::V237; } i -= 1;
        if i == 0 { return E15::V236; } i -= 1;
        if i == 0 { return E15::V235; } i -= 1;
        if i == 0 { return E15::V234; } i -= 1;
        if i == 0 { return E15::V233; } i -= 1;
        if i == 0 { return E15::V232; } i -= 1;
        if i == 0 { return E15::V231; } i -= 1;
        if i == 0 { return E15::V230; } i -= 1;
        if i == 0 { return E15::V229; } i -= 1;
        if i == 0 { return E15::V228; } i -= 1;
        if i == 0 { return E15::V227; } i -= 1;
        if i == 0 { return E15::V226; } i -= 1;
        if i == 0 { return E15::V225; } i -= 1;
        if i == 0 { return E15::V224; } i -= 1;
        if i == 0 { return E15::V223; } i -= 1;
        if i == 0 { return E15::V222; } i -= 1;
        if i == 0 { return E15::V221; } i -= 1;
        if i == 0 { return E15::V220; } i -= 1;
        if i == 0 { return E15::V219; } i -= 1;
        if i == 0 { return E15::V218; } i -= 1;
        if i == 0 { return E15::V217; } i -= 1;
        if i == 0 { return E15::V216; } i -= 1;
        if i == 0 { return E15::V215; } i -= 1;
        if i == 0 { return E15::V214; } i -= 1;
        if i == 0 { return E15::V213; } i -= 1;
        if i == 0 { return E15::V212; } i -= 1;
        if i == 0 { return E15::V211; } i -= 1;
        if i == 0 { return E15::V210; } i -= 1;
        if i == 0 { return E15::V209; } i -= 1;
        if i == 0 { return E15::V208; } i -= 1;
        if i == 0 { return E15::V207; } i -= 1;
        if i == 0 { return E15::V206; } i -= 1;
        if i == 0 { return E15::V205; } i -= 1;
        if i == 0 { return E15::V204; } i -= 1;
        if i == 0 { return E15::V203; } i -= 1;
        if i == 0 { return E15::V202; } i -= 1;
        if i == 0 { return E15::V201; } i -= 1;
        if i == 0 { return E15::V200; } i -= 1;
        if i == 0 { return E15::V199; } i -= 1;
        if i == 0 { return E15::V198; } i -= 1;
        if i == 0 { return E15::V197; } i -= 1;
        if i == 0 { return E15::V196; } i -= 1;
        if i == 0 { return E15::V195; } i -= 1;
        if i == 0 { return E15::V194; } i -= 1;
        if i == 0 { return E15::V193; } i -= 1;
        if i == 0 { return E15::V192; } i -= 1;
        if i == 0 { return E15::V191; } i -= 1;
        if i == 0 { return E15::V190; } i -= 1;
        if i == 0 { return E15::V189; } i -= 1;
        if i == 0 { return E15::V188; } i -= 1;
        if i == 0 { return E15::V187; } i -= 1;
        if i == 0 { return E15::V186; } i -= 1;
        if i == 0 { return E15::V185; } i -= 1;
        if i == 0 { return E15::V184; } i -= 1;
        if i == 0 { return E15::V183; } i -= 1;
        if i == 0 { return E15::V182; } i -= 1;
        if i == 0 { return E15::V181; } i -= 1;
        if i == 0 { return E15::V180; } i -= 1;
        if i == 0 { return E15::V179; } i -= 1;
        if i == 0 { return E15::V178; } i -= 1;
        if i == 0 { return E15::V177; } i -= 1;
        if i == 0 { return E15::V176; } i -= 1;
        if i == 0 { return E15::V175; } i -= 1;
        if i == 0 { return E15::V174; } i -= 1;
        if i == 0 { return E15::V173; } i -= 1;
        if i == 0 { return E15::V172; } i -= 1;
        if i == 0 { return E15::V171; } i -= 1;
        if i == 0 { return E15::V170; } i -= 1;
        if i == 0 { return E15::V169; } i -= 1;
        if i == 0 { return E15::V168; } i -= 1;
        if i == 0 { return E15::V167; } i -= 1;
        if i == 0 { return E15::V166; } i -= 1;
        if i == 0 { return E15::V165; } i -= 1;
        if i == 0 { return E15::V164; } i -= 1;
        if i == 0 { return E15::V163; } i -= 1;
        if i == 0 { return E15::V162; } i -= 1;
        if i == 0 { return E15::V161; } i -= 1;
        if i == 0 { return E15::V160; } i -= 1;
        if i == 0 { return E15::V159; } i -= 1;
        if i == 0 { return E15::V158; } i -= 1;
        if i == 0 { return E15::V157; } i -= 1;
        if i == 0 { return E15::V156; } i -= 1;
        if i == 0 { return E15::V155; } i -= 1;
        if i == 0 { return E15::V154; } i -= 1;
        if i == 0 { return E15::V153; } i -= 1;
        if i == 0 { return E15::V152; } i -= 1;
        if i == 0 { return E15::V151; } i -= 1;
        if i == 0 { return E15::V150; } i -= 1;
        if i == 0 { return E15::V149; } i -= 1;
        if i == 0 { return E15::V148; } i -= 1;
        if i == 0 { return E15::V147; } i -= 1;
        if i == 0 { return E15::V146; } i -= 1;
        if i == 0 { return E15::V145; } i -= 1;
        if i == 0 { return E15::V144; } i -= 1;
        if i == 0 { return E15::V143; } i -= 1;
        if i == 0 { return E15::V142; } i -= 1;
        if i == 0 { return E15::V141; } i -= 1;
        if i == 0 { return E15::V140; } i -= 1;
        if i == 0 { return E15::V139; } i -= 1;
        if i == 0 { return E15::V138; } i -= 1;
        if i == 0 { return E15::V137; } i -= 1;
        if i == 0 { return E15::V136; } i -= 1;
        if i == 0 { return E15::V135; } i -= 1;
        if i == 0 { return E15::V134; } i -= 1;
        if i == 0 { return E15::V133; } i -= 1;
        if i == 0 { return E15::V132; } i -= 1;
        if i == 0 { return E15::V131; } i -= 1;
        if i == 0 { return E15::V130; } i -= 1;
        if i == 0 { return E15::V129; } i -= 1;
        if i == 0 { return E15::V128; } i -= 1;
        if i == 0 { return E15::V127; } i -= 1;
        if i == 0 { return E15::V126; } i -= 1;
        if i == 0 { return E15::V125; } i -= 1;
        if i == 0 { return E15::V124; } i -= 1;
        if i == 0 { return E15::V123; } i -= 1;
        if i == 0 { return E15::V122; } i -= 1;
        if i == 0 { return E15::V121; } i -= 1;
        if i == 0 { return E15::V120; } i -= 1;
        if i == 0 { return E15::V119; } i -= 1;
        if i == 0 { return E15::V118; } i -= 1;
        if i == 0 { return E15::V117; } i -= 1;
        if i == 0 { return E15::V116; } i -= 1;
        if i == 0 { return E15::V115; } i -= 1;
        if i == 0 { return E15::V114; } i -= 1;
        if i == 0 { return E15::V113; } i -= 1;
        if i == 0 { return E15::V112; } i -= 1;
        if i == 0 { return E15::V111; } i -= 1;
        if i == 0 { return E15::V110; } i -= 1;
        if i == 0 { return E15::V109; } i -= 1;
        if i == 0 { return E15::V108; } i -= 1;
        if i == 0 { return E15::V107; } i -= 1;
        if i == 0 { return E15::V106; } i -= 1;
        if i == 0 { return E15::V105; } i -= 1;
        if i == 0 { return E15::V104; } i -= 1;
        if i == 0 { return E15::V103; } i -= 1;
        if i == 0 { return E15::V102; } i -= 1;
        if i == 0 { return E15::V101; } i -= 1;
        if i == 0 { return E15::V100; } i -= 1;
        if i == 0 { return E15::V99; } i -= 1;
        if i == 0 { return E15::V98; } i -= 1;
        if i == 0 { return E15::V97; } i -= 1;
        if i == 0 { return E15::V96; } i -= 1;
        if i == 0 { return E15::V95; } i -= 1;
        if i == 0 { return E15::V94; } i -= 1;
        if i == 0 { return E15::V93; } i -= 1;
        if i == 0 { return E15::V92; } i -= 1;
        if i == 0 { return E15::V91; } i -= 1;
        if i == 0 { return E15::V90; } i -= 1;
        if i == 0 { return E15::V89; } i -= 1;
        if i == 0 { return E15::V88; } i -= 1;
        if i == 0 { return E15::V87; } i -= 1;
        if i == 0 { return E15::V86; } i -= 1;
        if i == 0 { return E15::V85; } i -= 1;
        if i == 0 { return E15::V84; } i -= 1;
        if i == 0 { return E15::V83; } i -= 1;
        if i == 0 { return E15::V82; } i -= 1;
        if i == 0 { return E15::V81; } i -= 1;
        if i == 0 { return E15::V80; } i -= 1;
        if i == 0 { return E15::V79; } i -= 1;
        if i == 0 { return E15::V78; } i -= 1;
        if i == 0 { return E15::V77; } i -= 1;
        if i == 0 { return E15::V76; } i -= 1;
        if i == 0 { return E15::V75; } i -= 1;
        if i == 0 { return E15::V74; } i -= 1;
        if i == 0 { return E15::V73; } i -= 1;
        if i == 0 { return E15::V72; } i -= 1;
        if i == 0 { return E15::V71; } i -= 1;
        if i == 0 { return E15::V70; } i -= 1;
        if i == 0 { return E15::V69; } i -= 1;
        if i == 0 { return E15::V68; } i -= 1;
        if i == 0 { return E15::V67; } i -= 1;
        if i == 0 { return E15::V66; } i -= 1;
        if i == 0 { return E15::V65; } i -= 1;
        if i == 0 { return E15::V64; } i -= 1;
        if i == 0 { return E15::V63; } i -= 1;
        if i == 0 { return E15::V62; } i -= 1;
        if i == 0 { return E15::V61; } i -= 1;
        if i == 0 { return E15::V60; } i -= 1;
        if i == 0 { return E15::V59; } i -= 1;
        if i == 0 { return E15::V58; } i -= 1;
        if i == 0 { return E15::V57; } i -= 1;
        if i == 0 { return E15::V56; } i -= 1;
        if i == 0 { return E15::V55; } i -= 1;
        if i == 0 { return E15::V54; } i -= 1;
        if i == 0 { return E15::V53; } i -= 1;
        if i == 0 { return E15::V52; } i -= 1;
        if i == 0 { return E15::V51; } i -= 1;
        if i == 0 { return E15::V50; } i -= 1;
        if i == 0 { return E15::V49; } i -= 1;
        if i == 0 { return E15::V48; } i -= 1;
        if i == 0 { return E15::V47; } i -= 1;
        if i == 0 { return E15::V46; } i -= 1;
        if i == 0 { return E15::V45; } i -= 1;
        if i == 0 { return E15::V44; } i -= 1;
        if i == 0 { return E15::V43; } i -= 1;
        if i == 0 { return E15::V42; } i -= 1;
        if i == 0 { return E15::V41; } i -= 1;
        if i == 0 { return E15::V40; } i -= 1;
        if i == 0 { return E15::V39; } i -= 1;
        if i == 0 { return E15::V38; } i -= 1;
        if i == 0 { return E15::V37; } i -= 1;
        if i == 0 { return E15::V36; } i -= 1;
        if i == 0 { return E15::V35; } i -= 1;
        if i == 0 { return E15::V34; } i -= 1;
        if i == 0 { return E15::V33; } i -= 1;
        if i == 0 { return E15::V32; } i -= 1;
        if i == 0 { return E15::V31; } i -= 1;
        if i == 0 { return E15::V30; } i -= 1;
        if i == 0 { return E15::V29; } i -= 1;
        if i == 0 { return E15::V28; } i -= 1;
        if i == 0 { return E15::V27; } i -= 1;
        if i == 0 { return E15::V26; } i -= 1;
        if i == 0 { return E15::V25; } i -= 1;
        if i == 0 { return E15::V24; } i -= 1;
        if i == 0 { return E15::V23; } i -= 1;
        if i == 0 { return E15::V22; } i -= 1;
        if i == 0 { return E15::V21; } i -= 1;
        if i == 0 { return E15::V20; } i -= 1;
        if i == 0 { return E15::V19; } i -= 1;
        if i == 0 { return E15::V18; } i -= 1;
        if i == 0 { return E15::V17; } i -= 1;
        if i == 0 { return E15::V16; } i -= 1;
        if i == 0 { return E15::V15; } i -= 1;
        if i == 0 { return E15::V14; } i -= 1;
        if i == 0 { return E15::V13; } i -= 1;
        if i == 0 { return E15::V12; } i -= 1;
        if i == 0 { return E15::V11; } i -= 1;
        if i == 0 { return E15::V10; } i -= 1;
        if i == 0 { return E15::V9; } i -= 1;
        if i == 0 { return E15::V8; } i -= 1;
        if i == 0 { return E15::V7; } i -= 1;
        if i == 0 { return E15::V6; } i -= 1;
        if i == 0 { return E15::V5; } i -= 1;
        if i == 0 { return E15::V4; } i -= 1;
        if i == 0 { return E15::V3; } i -= 1;
        if i == 0 { return E15::V2; } i -= 1;
        if i == 0 { return E15::V1; } i -= 1;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E15::V600 => 0u128,
            E15::V599 => 1u128,
            E15::V598 => 2u128,
            E15::V597 => 3u128,
            E15::V596 => 4u128,
            E15::V595 => 5u128,
            E15::V594 => 6u128,
            E15::V593 => 7u128,
            E15::V592 => 8u128,
            E15::V591 => 9u128,
            E15::V590 => 10u128,
            E15::V589 => 11u128,
            E15::V588 => 12u128,
            E15::V587 => 13u128,
            E15::V586 => 14u128,
            E15::V585 => 15u128,
            E15::V584 => 16u128,
            E15::V583 => 17u128,
            E15::V582 => 18u128,
            E15::V581 => 19u128,
            E15::V580 => 20u128,
            E15::V579 => 21u128,
            E15::V578 => 22u128,
            E15::V577 => 23u128,
            E15::V576 => 24u128,
            E15::V575 => 25u128,
            E15::V574 => 26u128,
            E15::V573 => 27u128,
            E15::V572 => 28u128,
            E15::V571 => 29u128,
            E15::V570 => 30u128,
            E15::V569 => 31u128,
            E15::V568 => 32u128,
            E15::V567 => 33u128,
            E15::V566 => 34u128,
            E15::V565 => 35u128,
            E15::V564 => 36u128,
            E15::V563 => 37u128,
            E15::V562 => 38u128,
            E15::V561 => 39u128,
            E15::V560 => 40u128,
            E15::V559 => 41u128,
            E15::V558 => 42u128,
            E15::V557 => 43u128,
            E15::V556 => 44u128,
            E15::V555 => 45u128,
            E15::V554 => 46u128,
            E15::V553 => 47u128,
            E15::V552 => 48u128,
            E15::V551 => 49u128,
            E15::V550 => 50u128,
            E15::V549 => 51u128,
            E15::V548 => 52u128,
            E15::V547 => 53u128,
            E15::V546 => 54u128,
            E15::V545 => 55u128,
            E15::V544 => 56u128,
            E15::V543 => 57u128,
            E15::V542 => 58u128,
            E15::V541 => 59u128,
            E15::V540 => 60u128,
            E15::V539 => 61u128,
            E15::V538 => 62u128,
            E15::V537 => 63u128,
            E15::V536 => 64u128,
            E15::V535 => 65u128,
            E15::V534 => 66u128,
            E15::V533 => 67u128,
            E15::V532 => 68u128,
            E15::V531 => 69u128,
            E15::V530 => 70u128,
            E15::V529 => 71u128,
            E15::V528 => 72u128,
            E15::V527 => 73u128,
            E15::V526 => 74u128,
            E15::V525 => 75u128,
            E15::V524 => 76u128,
            E15::V523 => 77u128,
            E15::V522 => 78u128,
            E15::V521 => 79u128,
            E15::V520 => 80u128,
            E15::V519 => 81u128,
            E15::V518 => 82u128,
            E15::V517 => 83u128,
            E15::V516 => 84u128,
            E15::V515 => 85u128,
            E15::V514 => 86u128,
            E15::V513 => 87u128,
            E15::V512 => 88u128,
            E15::V511 => 89u128,
            E15::V510 => 90u128,
            E15::V509 => 91u128,
            E15::V508 => 92u128,
            E15::V507 => 93u128,
            E15::V506 => 94u128,
            E15::V505 => 95u128,
            E15::V504 => 96u128,
            E15::V503 => 97u128,
            E15::V502 => 98u128,
            E15::V501 => 99u128,
            E15::V500 => 100u128,
            E15::V499 => 101u128,
            E15::V498 => 102u128,
            E15::V497 => 103u128,
            E15::V496 => 104u128,
            E15::V495 => 105u128,
            E15::V494 => 106u128,
            E15::V493 => 107u128,
            E15::V492 => 108u128,
            E15::V491 => 109u128,
            E15::V490 => 110u128,
            E15::V489 => 111u128,
            E15::V488 => 112u128,
            E15::V487 => 113u128,
            E15::V486 => 114u128,
            E15::V485 => 115u128,
            E15::V484 => 116u128,
            E15::V483 => 117u128,
            E15::V482 => 118u128,
            E15::V481 => 119u128,
            E15::V480 => 120u128,
            E15::V479 => 121u128,
            E15::V478 => 122u128,
            E15::V477 => 123u128,
            E15::V476 => 124u128,
            E15::V475 => 125u128,
            E15::V474 => 126u128,
            E15::V473 => 127u128,
            E15::V472 => 128u128,
            E15::V471 => 129u128,
            E15::V470 => 130u128,
            E15::V469 => 131u128,
            E15::V468 => 132u128,
            E15::V467 => 133u128,
            E15::V466 => 134u128,
            E15::V465 => 135u128,
            E15::V464 => 136u128,
            E15::V463 => 137u128,
            E15::V462 => 138u128,
            E15::V461 => 139u128,
            E15::V460 => 140u128,
            E15::V459 => 141u128,
            E15::V458 => 142u128,
            E15::V457 => 143u128,
            E15::V456 => 144u128,
            E15::V455 => 145u128,
            E15::V454 => 146u128,
            E15::V453 => 147u128,
            E15::V452 => 148u128,
            E15::V451 => 149u128,
            E15::V450 => 150u128,
            E15::V449 => 151u128,
            E15::V448 => 152u128,
            E15::V447 => 153u128,
            E15::V446 => 154u128,
            E15::V445 => 155u128,
            E15::V444 => 156u128,
            E15::V443 => 157u128,
            E15::V442 => 158u128,
            E15::V441 => 159u128,
            E15::V440 => 160u128,
            E15::V439 => 161u128,
            E15::V438 => 162u128,
            E15::V437 => 163u128,
            E15::V436 => 164u128,
            E15::V435 => 165u128,
            E15::V434 => 166u128,
            E15::V433 => 167u128,
            E15::V432 => 168u128,
            E15::V431 => 169u128,
            E15::V430 => 170u128,
            E15::V429 => 171u128,
            E15::V428 => 172u128,
            E15::V427 => 173u128,
            E15::V426 => 174u128,
            E15::V425 => 175u128,
            E15::V424 => 176u128,
            E15::V423 => 177u128,
            E15::V422 => 178u128,
            E15::V421 => 179u128,
            E15::V420 => 180u128,
            E15::V419 => 181u128,
            E15::V418 => 182u128,
            E15::V417 => 183u128,
            E15::V416 => 184u128,
            E15::V415 => 185u128,
            E15::V414 => 186u128,
            E15::V413 => 187u128,
            E15::V412 => 188u128,
            E15::V411 => 189u128,
            E15::V410 => 190u128,
            E15::V409 => 191u128,
            E15::V408 => 192u128,
            E15::V407 => 193u128,
            E15::V406 => 194u128,
            E15::V405 => 195u128,
            E15::V404 => 196u128,
            E15::V403 => 197u128,
            E15::V402 => 198u128,
            E15::V401 => 199u128,
            E15::V400 => 200u128,
            E15::V399 => 201u128,
            E15::V398 => 202u128,
            E15::V397 => 203u128,
            E15::V396 => 204u128,
            E15::V395 => 205u128,
            E15::V394 => 206u128,
            E15::V393 => 207u128,
            E15::V392 => 208u128,
            E15::V391 => 209u128,
            E15::V390 => 210u128,
            E15::V389 => 211u128,
            E15::V388 => 212u128,
            E15::V387 => 213u128,
            E15::V386 => 214u128,
            E15::V385 => 215u128,
            E15::V384 => 216u128,
            E15::V383 => 217u128,
            E15::V382 => 218u128,
            E15::V381 => 219u128,
            E15::V380 => 220u128,
            E15::V379 => 221u128,
            E15::V378 => 222u128,
            E15::V377 => 223u128,
            E15::V376 => 224u128,
            E15::V375 => 225u128,
            E15::V374 => 226u128,
            E15::V373 => 227u128,
            E15::V372 => 228u128,
            E15::V371 => 229u128,
            E15::V370 => 230u128,
            E15::V369 => 231u128,
            E15::V368 => 232u128,
            E15::V367 => 233u128,
            E15::V366 => 234u128,
            E15::V365 => 235u128,
            E15::V364 => 236u128,
            E15::V363 => 237u128,
            E15::V362 => 238u128,
            E15::V361 => 239u128,
            E15::V360 => 240u128,
            E15::V359 => 241u128,
            E15::V358 => 242u128,
            E15::V357 => 243u128,
            E15::V356 => 244u128,
            E15::V355 => 245u128,
            E15::V354 => 246u128,
            E15::V353 => 247u128,
            E15::V352 => 248u128,
            E15::V351 => 249u128,
            E15::V350 => 250u128,
            E15::V349 => 251u128,
            E15::V348 => 252u128,
            E15::V347 => 253u128,
            E15::V346 => 254u128,
            E15::V345 => 255u128,
            E15::V344 => 256u128,
            E15::V343 => 257u128,
            E15::V342 => 258u128,
            E15::V341 => 259u128,
            E15::V340 => 260u128,
            E15::V339 => 261u128,
            E15::V338 => 262u128,
            E15::V337 => 263u128,
            E15::V336 => 264u128,
            E15::V335 => 265u128,
            E15::V334 => 266u128,
            E15::V333 => 267u128,
            E15::V332 => 268u128,
            E15::V331 => 269u128,
            E15::V330 => 270u128,
            E15::V329 => 271u128,
            E15::V328 => 272u128,
            E15::V327 => 273u128,
            E15::V326 => 274u128,
            E15::V325 => 275u128,
            E15::V324 => 276u128,
            E15::V323 => 277u128,
            E15::V322 => 278u128,
            E15::V321 => 279u128,
            E15::V320 => 280u128,
            E15::V319 => 281u128,
            E15::V318 => 282u128,
            E15::V317 => 283u128,
            E15::V316 => 284u128,
            E15::V315 => 285u128,
            E15::V314 => 286u128,
            E15::V313 => 287u128,
            E15::V312 => 288u128,
            E15::V311 => 289u128,
            E15::V310 => 290u128,
            E15::V309 => 291u128,
            E15::V308 => 292u128,
            E15::V307 => 293u128,
            E15::V306 => 294u128,
            E15::V305 => 295u128,
            E15::V304 => 296u128,
            E15::V303 => 297u128,
            E15::V302 => 298u128,
            E15::V301 => 299u128,
            E15::V300 => 300u128,
            E15::V299 => 301u128,
            E15::V298 => 302u128,
            E15::V297 => 303u128,
            E15::V296 => 304u128,
            E15::V295 => 305u128,
            E15::V294 => 306u128,
            E15::V293 => 307u128,
            E15::V292 => 308u128,
            E15::V291 => 309u128,
            E15::V290 => 310u128,
            E15::V289 => 311u128,
            E15::V288 => 312u128,
            E15::V287 => 313u128,
            E15::V286 => 314u128,
            E15::V285 => 315u128,
            E15::V284 => 316u128,
            E15::V283 => 317u128,
            E15::V282 => 318u128,
            E15::V281 => 319u128,
            E15::V280 => 320u128,
            E15::V279 => 321u128,
            E15::V278 => 322u128,
            E15::V277 => 323u128,
            E15::V276 => 324u128,
            E15::V275 => 325u128,
            E15::V274 => 326u128,
            E15::V273 => 327u128,
            E15::V272 => 328u128,
            E15::V271 => 329u128,
            E15::V270 => 330u128,
            E15::V269 => 331u128,
            E15::V268 => 332u128,
            E15::V267 => 333u128,
            E15::V266 => 334u128,
            E15::V265 => 335u128,
            E15::V264 => 336u128,
            E15::V263 => 337u128,
            E15::V262 => 338u128,
            E15::V261 => 339u128,
            E15::V260 => 340u128,
            E15::V259 => 341u128,
            E15::V258 => 342u128,
            E15::V257 => 343u128,
            E15::V256 => 344u128,
            E15::V255 => 345u128,
            E15::V254 => 346u128,
            E15::V253 => 347u128,
            E15::V252 => 348u128,
            E15::V251 => 349u128,
            E15::V250 => 350u128,
            E15::V249 => 351u128,
            E15::V248 => 352u128,
            E15::V247 => 353u128,
            E15::V246 => 354u128,
            E15::V245 => 355u128,
            E15::V244 => 356u128,
            E15::V243 => 357u128,
            E15::V242 => 358u128,
            E15::V241 => 359u128,
            E15::V240 => 360u128,
            E15::V239 => 361u128,
            E15::V238 => 362u128,
            E15::V237 => 363u128,
            E15::V236 => 364u128,
            E15::V235 => 365u128,
            E15::V234 => 366u128,
            E15::V233 => 367u128,
            E15::V232 => 368u128,
            E15::V231 => 369u128,
            E15::V230 => 370u128,
            E15::V229 => 371u128,
            E15::V228 => 372u128,
            E15::V227 => 373u128,
            E15::V226 => 374u128,
            E15::V225 => 375u128,
            E15::V224 => 376u128,
            E15::V223 => 377u128,
            E15::V222 => 378u128,
            E15::V221 => 379u128,
            E15::V220 => 380u128,
            E15::V219 => 381u128,
            E15::V218 => 382u128,
            E15::V217 => 383u128,
            E15::V216 => 384u128,
            E15::V215 => 385u128,
            E15::V214 => 386u128,
            E15::V213 => 387u128,
            E15::V212 => 388u128,
            E15::V211 => 389u128,
            E15::V210 => 390u128,
            E15::V209 => 391u128,
            E15::V208 => 392u128,
            E15::V207 => 393u128,
            E15::V206 => 394u128,
            E15::V205 => 395u128,
            E15::V204 => 396u128,
            E15::V203 => 397u128,
            E15::V202 => 398u128,
            E15::V201 => 399u128,
            E15::V200 => 400u128,
            E15::V199 => 401u128,
            E15::V198 => 402u128,
            E15::V197 => 403u128,
            E15::V196 => 404u128,
            E15::V195 => 405u128,
            E15::V194 => 406u128,
            E15::V193 => 407u128,
            E15::V192 => 408u128,
            E15::V191 => 409u128,
            E15::V190 => 410u128,
            E15::V189 => 411u128,
            E15::V188 => 412u128,
            E15::V187 => 413u128,
            E15::V186 => 414u128,
            E15::V185 => 415u128,
            E15::V184 => 416u128,
            E15::V183 => 417u128,
            E15::V182 => 418u128,
            E15::V181 => 419u128,
            E15::V180 => 420u128,
            E15::V179 => 421u128,
            E15::V178 => 422u128,
            E15::V177 => 423u128,
            E15::V176 => 424u128,
            E15::V175 => 425u128,
            E15::V174 => 426u128,
            E15::V173 => 427u128,
            E15::V172 => 428u128,
            E15::V171 => 429u128,
            E15::V170 => 430u128,
            E15::V169 => 431u128,
            E15::V168 => 432u128,
            E15::V167 => 433u128,
            E15::V166 => 434u128,
            E15::V165 => 435u128,
            E15::V164 => 436u128,
            E15::V163 => 437u128,
            E15::V162 => 438u128,
            E15::V161 => 439u128,
            E15::V160 => 440u128,
            E15::V159 => 441u128,
            E15::V158 => 442u128,
            E15::V157 => 443u128,
            E15::V156 => 444u128,
            E15::V155 => 445u128,
            E15::V154 => 446u128,
            E15::V153 => 447u128,
            E15::V152 => 448u128,
            E15::V151 => 449u128,
            E15::V150 => 450u128,
            E15::V149 => 451u128,
            E15::V148 => 452u128,
            E15::V147 => 453u128,
            E15::V146 => 454u128,
            E15::V145 => 455u128,
            E15::V144 => 456u128,
            E15::V143 => 457u128,
            E15::V142 => 458u128,
            E15::V141 => 459u128,
            E15::V140 => 460u128,
            E15::V139 => 461u128,
            E15::V138 => 462u128,
            E15::V137 => 463u128,
            E15::V136 => 464u128,
            E15::V135 => 465u128,
            E15::V134 => 466u128,
            E15::V133 => 467u128,
            E15::V132 => 468u128,
            E15::V131 => 469u128,
            E15::V130 => 470u128,
            E15::V129 => 471u128,
            E15::V128 => 472u128,
            E15::V127 => 473u128,
            E15::V126 => 474u128,
            E15::V125 => 475u128,
            E15::V124 => 476u128,
            E15::V123 => 477u128,
            E15::V122 => 478u128,
            E15::V121 => 479u128,
            E15::V120 => 480u128,
            E15::V119 => 481u128,
            E15::V118 => 482u128,
            E15::V117 => 483u128,
            E15::V116 => 484u128,
            E15::V115 => 485u128,
            E15::V114 => 486u128,
            E15::V113 => 487u128,
            E15::V112 => 488u128,
            E15::V111 => 489u128,
            E15::V110 => 490u128,
            E15::V109 => 491u128,
            E15::V108 => 492u128,
            E15::V107 => 493u128,
            E15::V106 => 494u128,
            E15::V105 => 495u128,
            E15::V104 => 496u128,
            E15::V103 => 497u128,
            E15::V102 => 498u128,
            E15::V101 => 499u128,
            E15::V100 => 500u128,
            E15::V99 => 501u128,
            E15::V98 => 502u128,
            E15::V97 => 503u128,
            E15::V96 => 504u128,
            E15::V95 => 505u128,
            E15::V94 => 506u128,
            E15::V93 => 507u128,
            E15::V92 => 508u128,
            E15::V91 => 509u128,
            E15::V90 => 510u128,
            E15::V89 => 511u128,
            E15::V88 => 512u128,
            E15::V87 => 513u128,
            E15::V86 => 514u128,
            E15::V85 => 515u128,
            E15::V84 => 516u128,
            E15::V83 => 517u128,
            E15::V82 => 518u128,
            E15::V81 => 519u128,
            E15::V80 => 520u128,
            E15::V79 => 521u128,
            E15::V78 => 522u128,
            E15::V77 => 523u128,
            E15::V76 => 524u128,
            E15::V75 => 525u128,
            E15::V74 => 526u128,
            E15::V73 => 527u128,
            E15::V72 => 528u128,
            E15::V71 => 529u128,
            E15::V70 => 530u128,
            E15::V69 => 531u128,
            E15::V68 => 532u128,
            E15::V67 => 533u128,
            E15::V66 => 534u128,
            E15::V65 => 535u128,
            E15::V64 => 536u128,
            E15::V63 => 537u128,
            E15::V62 => 538u128,
            E15::V61 => 539u128,
            E15::V60 => 540u128,
            E15::V59 => 541u128,
            E15::V58 => 542u128,
            E15::V57 => 543u128,
            E15::V56 => 544u128,
            E15::V55 => 545u128,
            E15::V54 => 546u128,
            E15::V53 => 547u128,
            E15::V52 => 548u128,
            E15::V51 => 549u128,
            E15::V50 => 550u128,
            E15::V49 => 551u128,
            E15::V48 => 552u128,
            E15::V47 => 553u128,
            E15::V46 => 554u128,
            E15::V45 => 555u128,
            E15::V44 => 556u128,
            E15::V43 => 557u128,
            E15::V42 => 558u128,
            E15::V41 => 559u128,
            E15::V40 => 560u128,
            E15::V39 => 561u128,
            E15::V38 => 562u128,
            E15::V37 => 563u128,
            E15::V36 => 564u128,
            E15::V35 => 565u128,
            E15::V34 => 566u128,
            E15::V33 => 567u128,
            E15::V32 => 568u128,
            E15::V31 => 569u128,
            E15::V30 => 570u128,
            E15::V29 => 571u128,
            E15::V28 => 572u128,
            E15::V27 => 573u128,
            E15::V26 => 574u128,
            E15::V25 => 575u128,
            E15::V24 => 576u128,
            E15::V23 => 577u128,
            E15::V22 => 578u128,
            E15::V21 => 579u128,
            E15::V20 => 580u128,
            E15::V19 => 581u128,
            E15::V18 => 582u128,
            E15::V17 => 583u128,
            E15::V16 => 584u128,
            E15::V15 => 585u128,
            E15::V14 => 586u128,
            E15::V13 => 587u128,
            E15::V12 => 588u128,
            E15::V11 => 589u128,
            E15::V10 => 590u128,
            E15::V9 => 591u128,
            E15::V8 => 592u128,
            E15::V7 => 593u128,
            E15::V6 => 594u128,
            E15::V5 => 595u128,
            E15::V4 => 596u128,
            E15::V3 => 597u128,
            E15::V2 => 598u128,
            E15::V1 => 599u128,
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E23  { Mid(Tri, Tri, ()) }
impl Spec for E23 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<()>(&mut r); return E23::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E23::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E31  { Mid(Tri, Two, Tri), Zed }
impl Spec for E31 {
    fn count() -> u128 { 1u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E31::Zed; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E31::Mid(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E31::Zed => 0u128,
            E31::Mid(f0, f1, f2) => 1u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E39  { Mid(bool), Zed, Alpha { m: bool, z: Tri } }
impl Spec for E39 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E39::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E39::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E39::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E39::Zed => 0u128,
            E39::Mid(f0) => 1u128 + f0.index(),
            E39::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E47  { Mid(Never), Zed { m: Tri }, Alpha { m: Tri } }
impl Spec for E47 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E47::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E47::Zed { m: f0 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E47::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E47::Mid(f0) => 0u128 + f0.index(),
            E47::Zed { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() + f0.index(),
            E47::Alpha { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E55  { Mid { m: Tri }, Zed(()), Alpha(bool) }
impl Spec for E55 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E55::Mid { m: f0 }; } i -= c;
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E55::Zed(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E55::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E55::Mid { m: f0 } => 0u128 + f0.index(),
            E55::Zed(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
            E55::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <() as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E63  { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha(Option<bool>) }
impl Spec for E63 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Option<bool> as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E63::Mid(f0, f1); } i -= c;
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E63::Zed { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Option<bool> as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Option<bool>>(&mut r); return E63::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E63::Mid(f0, f1) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index(),
            E63::Zed { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <Never as Spec>::count() * f1.index(),
            E63::Alpha(f0) => 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E71  { Mid(()), Zed(bool), Alpha(Tri, Two, Tri) }
impl Spec for E71 {
    fn count() -> u128 { 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <() as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<()>(&mut r); return E71::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); return E71::Zed(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E71::Alpha(f0, f1, f2); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E71::Mid(f0) => 0u128 + f0.index(),
            E71::Zed(f0) => 0u128 + 1u128 * <() as Spec>::count() + f0.index(),
            E71::Alpha(f0, f1, f2) => 0u128 + 1u128 * <() as Spec>::count() + 1u128 * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E79  { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha { m: bool, z: Tri } }
impl Spec for E79 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E79::Mid(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); return E79::Zed(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E79::Alpha { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E79::Mid(f0, f1, f2) => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E79::Zed(f0, f1) => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index(),
            E79::Alpha { m: f0, z: f1 } => 0u128 + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E87  { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha { m: Tri } }
impl Spec for E87 {
    fn count() -> u128 { 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Never as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); let f1 = pick::<bool>(&mut r); return E87::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Two>(&mut r); let f2 = pick::<Tri>(&mut r); return E87::Zed(f0, f1, f2); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E87::Alpha { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E87::Mid { m: f0, z: f1 } => 0u128 + f0.index() + <Never as Spec>::count() * f1.index(),
            E87::Zed(f0, f1, f2) => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Two as Spec>::count() * f2.index(),
            E87::Alpha { m: f0 } => 0u128 + 1u128 * <Never as Spec>::count() * <bool as Spec>::count() + 1u128 * <Tri as Spec>::count() * <Two as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E95  { Mid, Zed, Alpha, Quux { m: bool, z: Tri } }
impl Spec for E95 {
    fn count() -> u128 { 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E95::Mid; } i -= 1;
        if i == 0 { return E95::Zed; } i -= 1;
        if i == 0 { return E95::Alpha; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E95::Quux { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E95::Mid => 0u128,
            E95::Zed => 1u128,
            E95::Alpha => 2u128,
            E95::Quux { m: f0, z: f1 } => 3u128 + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E103  { Mid(Tri), Zed, Alpha(Tri), Quux }
impl Spec for E103 {
    fn count() -> u128 { 2u128 + 1u128 * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E103::Zed; } i -= 1;
        if i == 0 { return E103::Quux; } i -= 1;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E103::Mid(f0); } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E103::Alpha(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E103::Zed => 0u128,
            E103::Quux => 1u128,
            E103::Mid(f0) => 2u128 + f0.index(),
            E103::Alpha(f0) => 2u128 + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E111  { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux(Never) }
impl Spec for E111 {
    fn count() -> u128 { 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + 1u128 * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E111::Zed; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E111::Mid { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E111::Alpha(f0); } i -= c;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E111::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E111::Zed => 0u128,
            E111::Mid { m: f0, z: f1 } => 1u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E111::Alpha(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
            E111::Quux(f0) => 1u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E119  { Mid(Never), Zed, Alpha { m: bool, z: Tri }, Quux(Tri) }
impl Spec for E119 {
    fn count() -> u128 { 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E119::Zed; } i -= 1;
        let c = 1u128 * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Never>(&mut r); return E119::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E119::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); return E119::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E119::Zed => 0u128,
            E119::Mid(f0) => 1u128 + f0.index(),
            E119::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Never as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E119::Quux(f0) => 1u128 + 1u128 * <Never as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E127  { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux(Two) }
impl Spec for E127 {
    fn count() -> u128 { 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <Two as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E127::Zed; } i -= 1;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E127::Mid(f0); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E127::Alpha { m: f0, z: f1 }; } i -= c;
        let c = 1u128 * <Two as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Two>(&mut r); return E127::Quux(f0); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E127::Zed => 0u128,
            E127::Mid(f0) => 1u128 + f0.index(),
            E127::Alpha { m: f0, z: f1 } => 1u128 + 1u128 * <Two as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
            E127::Quux(f0) => 1u128 + 1u128 * <Two as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E135  { Mid(bool, Tri), Zed, Alpha, Quux(bool, Tri), Beta }
impl Spec for E135 {
    fn count() -> u128 { 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        if i == 0 { return E135::Zed; } i -= 1;
        if i == 0 { return E135::Alpha; } i -= 1;
        if i == 0 { return E135::Beta; } i -= 1;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E135::Mid(f0, f1); } i -= c;
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); return E135::Quux(f0, f1); } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E135::Zed => 0u128,
            E135::Alpha => 1u128,
            E135::Beta => 2u128,
            E135::Mid(f0, f1) => 3u128 + f0.index() + <bool as Spec>::count() * f1.index(),
            E135::Quux(f0, f1) => 3u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() + f0.index() + <bool as Spec>::count() * f1.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E143  { Mid([Tri;0], D17), Zed { m: D17 } }
impl Spec for E143 {
    fn count() -> u128 { 0u128 + 1u128 * <[Tri;0] as Spec>::count() * <D17 as Spec>::count() + 1u128 * <D17 as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <[Tri;0] as Spec>::count() * <D17 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<[Tri;0]>(&mut r); let f1 = pick::<D17>(&mut r); return E143::Mid(f0, f1); } i -= c;
        let c = 1u128 * <D17 as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<D17>(&mut r); return E143::Zed { m: f0 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E143::Mid(f0, f1) => 0u128 + f0.index() + <[Tri;0] as Spec>::count() * f1.index(),
            E143::Zed { m: f0 } => 0u128 + 1u128 * <[Tri;0] as Spec>::count() * <D17 as Spec>::count() + f0.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S151   { m: bool, z: (), a: Tri }
impl Spec for S151 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <() as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<()>(&mut r); let f2 = pick::<Tri>(&mut r); return S151 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S151 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <() as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S159   { m: Tri, z: Tri, a: Never }
impl Spec for S159 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <Never as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <Tri as Spec>::count() * <Never as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Never>(&mut r); return S159 { m: f0, z: f1, a: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S159 { m: f0, z: f1, a: f2 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S167   { m: Tri, z: bool, a: Tri, q: Tri }
impl Spec for S167 {
    fn count() -> u128 { 0u128 + 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * <Tri as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<Tri>(&mut r); let f1 = pick::<bool>(&mut r); let f2 = pick::<Tri>(&mut r); let f3 = pick::<Tri>(&mut r); return S167 { m: f0, z: f1, a: f2, q: f3 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S167 { m: f0, z: f1, a: f2, q: f3 } => 0u128 + f0.index() + <Tri as Spec>::count() * f1.index() + <Tri as Spec>::count() * <bool as Spec>::count() * f2.index() + <Tri as Spec>::count() * <bool as Spec>::count() * <Tri as Spec>::count() * f3.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub enum E175  { Mid { x1: bool, x0: Tri, offset: Five } }
impl Spec for E175 {
    fn count() -> u128 { 0u128 + 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <bool as Spec>::count() * <Tri as Spec>::count() * <Five as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<bool>(&mut r); let f1 = pick::<Tri>(&mut r); let f2 = pick::<Five>(&mut r); return E175::Mid { x1: f0, x0: f1, offset: f2 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            E175::Mid { x1: f0, x0: f1, offset: f2 } => 0u128 + f0.index() + <bool as Spec>::count() * f1.index() + <bool as Spec>::count() * <Tri as Spec>::count() * f2.index(),
        }
    }
}
#[derive(Clone, Copy, EnumLike)]
pub struct S183<A> where A: Clone  { m: A, z: bool }
impl<A: Spec> Spec for S183<A> {
    fn count() -> u128 { 0u128 + 1u128 * <A as Spec>::count() * <bool as Spec>::count() }
    fn make(mut i: u128) -> Self {
        let c = 1u128 * <A as Spec>::count() * <bool as Spec>::count(); if i < c { #[allow(unused_mut, unused_variables)] let mut r = i; let f0 = pick::<A>(&mut r); let f1 = pick::<bool>(&mut r); return S183 { m: f0, z: f1 }; } i -= c;
        panic!("no value {}", i)
    }
    fn index(self) -> u128 {
        match self {
            S183 { m: f0, z: f1 } => 0u128 + f0.index() + <A as Spec>::count() * f1.index(),
        }
    }
}
pub fn all(v: &mut Vec<Ty>) {
    v.push(ty::<E7>("E7: enum E7 { Mid, Zed, Alpha, Quux, Beta, Yard, Core }", vec![u8_::<E7>(), u16_::<E7>(), u32_::<E7>(), u64_::<E7>(), u128_::<E7>(), small_::<E7>(), p8_::<E7>(), p16_::<E7>()]));
    v.push(ty::<Option<E7>>("Option<E7>: enum E7 { Mid, Zed, Alpha, Quux, Beta, Yard, Core }", vec![u8_::<Option<E7>>(), u16_::<Option<E7>>(), u32_::<Option<E7>>(), u64_::<Option<E7>>(), u128_::<Option<E7>>(), small_::<Option<E7>>(), p8_::<Option<E7>>(), p16_::<Option<E7>>()]));
    v.push(ty::<E15>("E15: enum E15 { V600, V599, V598, V597, V596, V595, V594, V593, V592, V591, V590, V589, V588, V587, V586, V585, V584, V583, V", vec![u16_::<E15>(), u32_::<E15>(), u64_::<E15>(), u128_::<E15>(), small_::<E15>(), p16_::<E15>()]));
    v.push(ty::<(E15, bool)>("(E15, bool): enum E15 { V600, V599, V598, V597, V596, V595, V594, V593, V592, V591, V590, V589, V588, V587, V586, V585, V584, V583, V", vec![u16_::<(E15, bool)>(), u32_::<(E15, bool)>(), u64_::<(E15, bool)>(), u128_::<(E15, bool)>(), small_::<(E15, bool)>(), p16_::<(E15, bool)>()]));
    v.push(ty::<E23>("E23: enum E23 { Mid(Tri, Tri, ()) }", vec![u8_::<E23>(), u16_::<E23>(), u32_::<E23>(), u64_::<E23>(), u128_::<E23>(), small_::<E23>(), p8_::<E23>(), p16_::<E23>()]));
    v.push(ty::<Result<E23, Tri>>("Result<E23, Tri>: enum E23 { Mid(Tri, Tri, ()) }", vec![u8_::<Result<E23, Tri>>(), u16_::<Result<E23, Tri>>(), u32_::<Result<E23, Tri>>(), u64_::<Result<E23, Tri>>(), u128_::<Result<E23, Tri>>(), small_::<Result<E23, Tri>>(), p8_::<Result<E23, Tri>>(), p16_::<Result<E23, Tri>>()]));
    v.push(ty::<E31>("E31: enum E31 { Mid(Tri, Two, Tri), Zed }", vec![u8_::<E31>(), u16_::<E31>(), u32_::<E31>(), u64_::<E31>(), u128_::<E31>(), small_::<E31>(), p8_::<E31>(), p16_::<E31>()]));
    v.push(ty::<[E31; 2]>("[E31; 2]: enum E31 { Mid(Tri, Two, Tri), Zed }", vec![u16_::<[E31; 2]>(), u32_::<[E31; 2]>(), u64_::<[E31; 2]>(), u128_::<[E31; 2]>(), small_::<[E31; 2]>(), p16_::<[E31; 2]>()]));
    v.push(ty::<E39>("E39: enum E39 { Mid(bool), Zed, Alpha { m: bool, z: Tri } }", vec![u8_::<E39>(), u16_::<E39>(), u32_::<E39>(), u64_::<E39>(), u128_::<E39>(), small_::<E39>(), p8_::<E39>(), p16_::<E39>()]));
    v.push(ty::<Option<(Tri, E39)>>("Option<(Tri, E39)>: enum E39 { Mid(bool), Zed, Alpha { m: bool, z: Tri } }", vec![u8_::<Option<(Tri, E39)>>(), u16_::<Option<(Tri, E39)>>(), u32_::<Option<(Tri, E39)>>(), u64_::<Option<(Tri, E39)>>(), u128_::<Option<(Tri, E39)>>(), small_::<Option<(Tri, E39)>>(), p8_::<Option<(Tri, E39)>>(), p16_::<Option<(Tri, E39)>>()]));
    v.push(ty::<E47>("E47: enum E47 { Mid(Never), Zed { m: Tri }, Alpha { m: Tri } }", vec![u8_::<E47>(), u16_::<E47>(), u32_::<E47>(), u64_::<E47>(), u128_::<E47>(), small_::<E47>(), p8_::<E47>(), p16_::<E47>()]));
    v.push(ty::<(E47,)>("(E47,): enum E47 { Mid(Never), Zed { m: Tri }, Alpha { m: Tri } }", vec![u8_::<(E47,)>(), u16_::<(E47,)>(), u32_::<(E47,)>(), u64_::<(E47,)>(), u128_::<(E47,)>(), small_::<(E47,)>(), p8_::<(E47,)>(), p16_::<(E47,)>()]));
    v.push(ty::<E55>("E55: enum E55 { Mid { m: Tri }, Zed(()), Alpha(bool) }", vec![u8_::<E55>(), u16_::<E55>(), u32_::<E55>(), u64_::<E55>(), u128_::<E55>(), small_::<E55>(), p8_::<E55>(), p16_::<E55>()]));
    v.push(ty::<Result<bool, [E55; 1]>>("Result<bool, [E55; 1]>: enum E55 { Mid { m: Tri }, Zed(()), Alpha(bool) }", vec![u8_::<Result<bool, [E55; 1]>>(), u16_::<Result<bool, [E55; 1]>>(), u32_::<Result<bool, [E55; 1]>>(), u64_::<Result<bool, [E55; 1]>>(), u128_::<Result<bool, [E55; 1]>>(), small_::<Result<bool, [E55; 1]>>(), p8_::<Result<bool, [E55; 1]>>(), p16_::<Result<bool, [E55; 1]>>()]));
    v.push(ty::<E63>("E63: enum E63 { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha(Option<bool>) }", vec![u8_::<E63>(), u16_::<E63>(), u32_::<E63>(), u64_::<E63>(), u128_::<E63>(), small_::<E63>(), p8_::<E63>(), p16_::<E63>()]));
    v.push(ty::<Option<E63>>("Option<E63>: enum E63 { Mid(Tri, bool), Zed { m: Never, z: bool }, Alpha(Option<bool>) }", vec![u8_::<Option<E63>>(), u16_::<Option<E63>>(), u32_::<Option<E63>>(), u64_::<Option<E63>>(), u128_::<Option<E63>>(), small_::<Option<E63>>(), p8_::<Option<E63>>(), p16_::<Option<E63>>()]));
    v.push(ty::<E71>("E71: enum E71 { Mid(()), Zed(bool), Alpha(Tri, Two, Tri) }", vec![u8_::<E71>(), u16_::<E71>(), u32_::<E71>(), u64_::<E71>(), u128_::<E71>(), small_::<E71>(), p8_::<E71>(), p16_::<E71>()]));
    v.push(ty::<(E71, bool)>("(E71, bool): enum E71 { Mid(()), Zed(bool), Alpha(Tri, Two, Tri) }", vec![u8_::<(E71, bool)>(), u16_::<(E71, bool)>(), u32_::<(E71, bool)>(), u64_::<(E71, bool)>(), u128_::<(E71, bool)>(), small_::<(E71, bool)>(), p8_::<(E71, bool)>(), p16_::<(E71, bool)>()]));
    v.push(ty::<E79>("E79: enum E79 { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha { m: bool, z: Tri } }", vec![u8_::<E79>(), u16_::<E79>(), u32_::<E79>(), u64_::<E79>(), u128_::<E79>(), small_::<E79>(), p8_::<E79>(), p16_::<E79>()]));
    v.push(ty::<Result<E79, Tri>>("Result<E79, Tri>: enum E79 { Mid(Tri, Two, Tri), Zed(Tri, bool), Alpha { m: bool, z: Tri } }", vec![u8_::<Result<E79, Tri>>(), u16_::<Result<E79, Tri>>(), u32_::<Result<E79, Tri>>(), u64_::<Result<E79, Tri>>(), u128_::<Result<E79, Tri>>(), small_::<Result<E79, Tri>>(), p8_::<Result<E79, Tri>>(), p16_::<Result<E79, Tri>>()]));
    v.push(ty::<E87>("E87: enum E87 { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha { m: Tri } }", vec![u8_::<E87>(), u16_::<E87>(), u32_::<E87>(), u64_::<E87>(), u128_::<E87>(), small_::<E87>(), p8_::<E87>(), p16_::<E87>()]));
    v.push(ty::<[E87; 2]>("[E87; 2]: enum E87 { Mid { m: Never, z: bool }, Zed(Tri, Two, Tri), Alpha { m: Tri } }", vec![u16_::<[E87; 2]>(), u32_::<[E87; 2]>(), u64_::<[E87; 2]>(), u128_::<[E87; 2]>(), small_::<[E87; 2]>(), p16_::<[E87; 2]>()]));
    v.push(ty::<E95>("E95: enum E95 { Mid, Zed, Alpha, Quux { m: bool, z: Tri } }", vec![u8_::<E95>(), u16_::<E95>(), u32_::<E95>(), u64_::<E95>(), u128_::<E95>(), small_::<E95>(), p8_::<E95>(), p16_::<E95>()]));
    v.push(ty::<Option<(Tri, E95)>>("Option<(Tri, E95)>: enum E95 { Mid, Zed, Alpha, Quux { m: bool, z: Tri } }", vec![u8_::<Option<(Tri, E95)>>(), u16_::<Option<(Tri, E95)>>(), u32_::<Option<(Tri, E95)>>(), u64_::<Option<(Tri, E95)>>(), u128_::<Option<(Tri, E95)>>(), small_::<Option<(Tri, E95)>>(), p8_::<Option<(Tri, E95)>>(), p16_::<Option<(Tri, E95)>>()]));
    v.push(ty::<E103>("E103: enum E103 { Mid(Tri), Zed, Alpha(Tri), Quux }", vec![u8_::<E103>(), u16_::<E103>(), u32_::<E103>(), u64_::<E103>(), u128_::<E103>(), small_::<E103>(), p8_::<E103>(), p16_::<E103>()]));
    v.push(ty::<(E103,)>("(E103,): enum E103 { Mid(Tri), Zed, Alpha(Tri), Quux }", vec![u8_::<(E103,)>(), u16_::<(E103,)>(), u32_::<(E103,)>(), u64_::<(E103,)>(), u128_::<(E103,)>(), small_::<(E103,)>(), p8_::<(E103,)>(), p16_::<(E103,)>()]));
    v.push(ty::<E111>("E111: enum E111 { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux(Never) }", vec![u8_::<E111>(), u16_::<E111>(), u32_::<E111>(), u64_::<E111>(), u128_::<E111>(), small_::<E111>(), p8_::<E111>(), p16_::<E111>()]));
    v.push(ty::<Result<bool, [E111; 1]>>("Result<bool, [E111; 1]>: enum E111 { Mid { m: bool, z: Tri }, Zed, Alpha(Tri), Quux(Never) }", vec![u8_::<Result<bool, [E111; 1]>>(), u16_::<Result<bool, [E111; 1]>>(), u32_::<Result<bool, [E111; 1]>>(), u64_::<Result<bool, [E111; 1]>>(), u128_::<Result<bool, [E111; 1]>>(), small_::<Result<bool, [E111; 1]>>(), p8_::<Result<bool, [E111; 1]>>(), p16_::<Result<bool, [E111; 1]>>()]));
    v.push(ty::<E119>("E119: enum E119 { Mid(Never), Zed, Alpha { m: bool, z: Tri }, Quux(Tri) }", vec![u8_::<E119>(), u16_::<E119>(), u32_::<E119>(), u64_::<E119>(), u128_::<E119>(), small_::<E119>(), p8_::<E119>(), p16_::<E119>()]));
    v.push(ty::<Option<E119>>("Option<E119>: enum E119 { Mid(Never), Zed, Alpha { m: bool, z: Tri }, Quux(Tri) }", vec![u8_::<Option<E119>>(), u16_::<Option<E119>>(), u32_::<Option<E119>>(), u64_::<Option<E119>>(), u128_::<Option<E119>>(), small_::<Option<E119>>(), p8_::<Option<E119>>(), p16_::<Option<E119>>()]));
    v.push(ty::<E127>("E127: enum E127 { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux(Two) }", vec![u8_::<E127>(), u16_::<E127>(), u32_::<E127>(), u64_::<E127>(), u128_::<E127>(), small_::<E127>(), p8_::<E127>(), p16_::<E127>()]));
    v.push(ty::<(E127, bool)>("(E127, bool): enum E127 { Mid(Two), Zed, Alpha { m: bool, z: Tri }, Quux(Two) }", vec![u8_::<(E127, bool)>(), u16_::<(E127, bool)>(), u32_::<(E127, bool)>(), u64_::<(E127, bool)>(), u128_::<(E127, bool)>(), small_::<(E127, bool)>(), p8_::<(E127, bool)>(), p16_::<(E127, bool)>()]));
    v.push(ty::<E135>("E135: enum E135 { Mid(bool, Tri), Zed, Alpha, Quux(bool, Tri), Beta }", vec![u8_::<E135>(), u16_::<E135>(), u32_::<E135>(), u64_::<E135>(), u128_::<E135>(), small_::<E135>(), p8_::<E135>(), p16_::<E135>()]));
    v.push(ty::<Result<E135, Tri>>("Result<E135, Tri>: enum E135 { Mid(bool, Tri), Zed, Alpha, Quux(bool, Tri), Beta }", vec![u8_::<Result<E135, Tri>>(), u16_::<Result<E135, Tri>>(), u32_::<Result<E135, Tri>>(), u64_::<Result<E135, Tri>>(), u128_::<Result<E135, Tri>>(), small_::<Result<E135, Tri>>(), p8_::<Result<E135, Tri>>(), p16_::<Result<E135, Tri>>()]));
    v.push(ty::<E143>("E143: enum E143 { Mid([Tri;0], D17), Zed { m: D17 } }", vec![u8_::<E143>(), u16_::<E143>(), u32_::<E143>(), u64_::<E143>(), u128_::<E143>(), small_::<E143>(), p8_::<E143>(), p16_::<E143>()]));
    v.push(ty::<[E143; 2]>("[E143; 2]: enum E143 { Mid([Tri;0], D17), Zed { m: D17 } }", vec![u16_::<[E143; 2]>(), u32_::<[E143; 2]>(), u64_::<[E143; 2]>(), u128_::<[E143; 2]>(), small_::<[E143; 2]>(), p16_::<[E143; 2]>()]));
    v.push(ty::<S151>("S151: struct S151 { m: bool, z: (), a: Tri }", vec![u8_::<S151>(), u16_::<S151>(), u32_::<S151>(), u64_::<S151>(), u128_::<S151>(), small_::<S151>(), p8_::<S151>(), p16_::<S151>()]));
    v.push(ty::<Option<(Tri, S151)>>("Option<(Tri, S151)>: struct S151 { m: bool, z: (), a: Tri }", vec![u8_::<Option<(Tri, S151)>>(), u16_::<Option<(Tri, S151)>>(), u32_::<Option<(Tri, S151)>>(), u64_::<Option<(Tri, S151)>>(), u128_::<Option<(Tri, S151)>>(), small_::<Option<(Tri, S151)>>(), p8_::<Option<(Tri, S151)>>(), p16_::<Option<(Tri, S151)>>()]));
    v.push(ty::<S159>("S159: struct S159 { m: Tri, z: Tri, a: Never }", vec![]));
    v.push(ty::<(S159,)>("(S159,): struct S159 { m: Tri, z: Tri, a: Never }", vec![]));
    v.push(ty::<S167>("S167: struct S167 { m: Tri, z: bool, a: Tri, q: Tri }", vec![u8_::<S167>(), u16_::<S167>(), u32_::<S167>(), u64_::<S167>(), u128_::<S167>(), small_::<S167>(), p8_::<S167>(), p16_::<S167>()]));
    v.push(ty::<Result<bool, [S167; 1]>>("Result<bool, [S167; 1]>: struct S167 { m: Tri, z: bool, a: Tri, q: Tri }", vec![u8_::<Result<bool, [S167; 1]>>(), u16_::<Result<bool, [S167; 1]>>(), u32_::<Result<bool, [S167; 1]>>(), u64_::<Result<bool, [S167; 1]>>(), u128_::<Result<bool, [S167; 1]>>(), small_::<Result<bool, [S167; 1]>>(), p8_::<Result<bool, [S167; 1]>>(), p16_::<Result<bool, [S167; 1]>>()]));
    v.push(ty::<E175>("E175: enum E175 { Mid { x1: bool, x0: Tri, offset: Five } }", vec![u8_::<E175>(), u16_::<E175>(), u32_::<E175>(), u64_::<E175>(), u128_::<E175>(), small_::<E175>(), p8_::<E175>(), p16_::<E175>()]));
    v.push(ty::<Option<E175>>("Option<E175>: enum E175 { Mid { x1: bool, x0: Tri, offset: Five } }", vec![u8_::<Option<E175>>(), u16_::<Option<E175>>(), u32_::<Option<E175>>(), u64_::<Option<E175>>(), u128_::<Option<E175>>(), small_::<Option<E175>>(), p8_::<Option<E175>>(), p16_::<Option<E175>>()]));
    v.push(ty::<S183<Never>>("S183<Never>: struct S183<A> where A: Clone { m: A, z: bool }", vec![]));
    v.push(ty::<(S183<Never>, bool)>("(S183<Never>, bool): struct S183<A> where A: Clone { m: A, z: bool }", vec![]));
    v.push(ty::<Never>("Never", vec![]));
    v.push(ty::<Result<(), bool>>("Result<(), bool>", vec![u8_::<Result<(), bool>>(), u16_::<Result<(), bool>>(), u32_::<Result<(), bool>>(), u64_::<Result<(), bool>>(), u128_::<Result<(), bool>>(), small_::<Result<(), bool>>(), p8_::<Result<(), bool>>(), p16_::<Result<(), bool>>()]));
    v.push(ty::<(bool, ())>("(bool, ())", vec![u8_::<(bool, ())>(), u16_::<(bool, ())>(), u32_::<(bool, ())>(), u64_::<(bool, ())>(), u128_::<(bool, ())>(), small_::<(bool, ())>(), p8_::<(bool, ())>(), p16_::<(bool, ())>()]));
    v.push(ty::<Option<Tri>>("Option<Tri>", vec![u8_::<Option<Tri>>(), u16_::<Option<Tri>>(), u32_::<Option<Tri>>(), u64_::<Option<Tri>>(), u128_::<Option<Tri>>(), small_::<Option<Tri>>(), p8_::<Option<Tri>>(), p16_::<Option<Tri>>()]));
    v.push(ty::<Result<Tri, Tri>>("Result<Tri, Tri>", vec![u8_::<Result<Tri, Tri>>(), u16_::<Result<Tri, Tri>>(), u32_::<Result<Tri, Tri>>(), u64_::<Result<Tri, Tri>>(), u128_::<Result<Tri, Tri>>(), small_::<Result<Tri, Tri>>(), p8_::<Result<Tri, Tri>>(), p16_::<Result<Tri, Tri>>()]));
    v.push(ty::<(Five, bool)>("(Five, bool)", vec![u8_::<(Five, bool)>(), u16_::<(Five, bool)>(), u32_::<(Five, bool)>(), u64_::<(Five, bool)>(), u128_::<(Five, bool)>(), small_::<(Five, bool)>(), p8_::<(Five, bool)>(), p16_::<(Five, bool)>()]));
    v.push(ty::<[Never; 0]>("[Never; 0]", vec![p8_::<[Never; 0]>(), p16_::<[Never; 0]>()]));
    v.push(ty::<Result<Never, Five>>("Result<Never, Five>", vec![u8_::<Result<Never, Five>>(), u16_::<Result<Never, Five>>(), u32_::<Result<Never, Five>>(), u64_::<Result<Never, Five>>(), u128_::<Result<Never, Five>>(), small_::<Result<Never, Five>>(), p8_::<Result<Never, Five>>(), p16_::<Result<Never, Five>>()]));
    v.push(ty::<(D17, Tri)>("(D17, Tri)", vec![u8_::<(D17, Tri)>(), u16_::<(D17, Tri)>(), u32_::<(D17, Tri)>(), u64_::<(D17, Tri)>(), u128_::<(D17, Tri)>(), small_::<(D17, Tri)>(), p8_::<(D17, Tri)>(), p16_::<(D17, Tri)>()]));
    v.push(ty::<(Result<(), ()>, bool, (Tri, Five))>("(Result<(), ()>, bool, (Tri, Five))", vec![u8_::<(Result<(), ()>, bool, (Tri, Five))>(), u16_::<(Result<(), ()>, bool, (Tri, Five))>(), u32_::<(Result<(), ()>, bool, (Tri, Five))>(), u64_::<(Result<(), ()>, bool, (Tri, Five))>(), u128_::<(Result<(), ()>, bool, (Tri, Five))>(), small_::<(Result<(), ()>, bool, (Tri, Five))>(), p8_::<(Result<(), ()>, bool, (Tri, Five))>(), p16_::<(Result<(), ()>, bool, (Tri, Five))>()]));
    v.push(ty::<Result<[bool; 3], Result<bool, Five>>>("Result<[bool; 3], Result<bool, Five>>", vec![u8_::<Result<[bool; 3], Result<bool, Five>>>(), u16_::<Result<[bool; 3], Result<bool, Five>>>(), u32_::<Result<[bool; 3], Result<bool, Five>>>(), u64_::<Result<[bool; 3], Result<bool, Five>>>(), u128_::<Result<[bool; 3], Result<bool, Five>>>(), small_::<Result<[bool; 3], Result<bool, Five>>>(), p8_::<Result<[bool; 3], Result<bool, Five>>>(), p16_::<Result<[bool; 3], Result<bool, Five>>>()]));
    v.push(ty::<Option<(bool, Five)>>("Option<(bool, Five)>", vec![u8_::<Option<(bool, Five)>>(), u16_::<Option<(bool, Five)>>(), u32_::<Option<(bool, Five)>>(), u64_::<Option<(bool, Five)>>(), u128_::<Option<(bool, Five)>>(), small_::<Option<(bool, Five)>>(), p8_::<Option<(bool, Five)>>(), p16_::<Option<(bool, Five)>>()]));
    v.push(ty::<[Result<Tri, bool>; 2]>("[Result<Tri, bool>; 2]", vec![u8_::<[Result<Tri, bool>; 2]>(), u16_::<[Result<Tri, bool>; 2]>(), u32_::<[Result<Tri, bool>; 2]>(), u64_::<[Result<Tri, bool>; 2]>(), u128_::<[Result<Tri, bool>; 2]>(), small_::<[Result<Tri, bool>; 2]>(), p8_::<[Result<Tri, bool>; 2]>(), p16_::<[Result<Tri, bool>; 2]>()]));
    v.push(ty::<((Five, ()), [D17; 0])>("((Five, ()), [D17; 0])", vec![u8_::<((Five, ()), [D17; 0])>(), u16_::<((Five, ()), [D17; 0])>(), u32_::<((Five, ()), [D17; 0])>(), u64_::<((Five, ()), [D17; 0])>(), u128_::<((Five, ()), [D17; 0])>(), small_::<((Five, ()), [D17; 0])>(), p8_::<((Five, ()), [D17; 0])>(), p16_::<((Five, ()), [D17; 0])>()]));
    v.push(ty::<(Option<Never>, bool, (Never, ()))>("(Option<Never>, bool, (Never, ()))", vec![]));
    v.push(ty::<Result<Result<Never, Tri>, Result<Five, ()>>>("Result<Result<Never, Tri>, Result<Five, ()>>", vec![u8_::<Result<Result<Never, Tri>, Result<Five, ()>>>(), u16_::<Result<Result<Never, Tri>, Result<Five, ()>>>(), u32_::<Result<Result<Never, Tri>, Result<Five, ()>>>(), u64_::<Result<Result<Never, Tri>, Result<Five, ()>>>(), u128_::<Result<Result<Never, Tri>, Result<Five, ()>>>(), small_::<Result<Result<Never, Tri>, Result<Five, ()>>>(), p8_::<Result<Result<Never, Tri>, Result<Five, ()>>>(), p16_::<Result<Result<Never, Tri>, Result<Five, ()>>>()]));
    v.push(ty::<Option<(D17, bool)>>("Option<(D17, bool)>", vec![u8_::<Option<(D17, bool)>>(), u16_::<Option<(D17, bool)>>(), u32_::<Option<(D17, bool)>>(), u64_::<Option<(D17, bool)>>(), u128_::<Option<(D17, bool)>>(), small_::<Option<(D17, bool)>>(), p8_::<Option<(D17, bool)>>(), p16_::<Option<(D17, bool)>>()]));
    v.push(ty::<(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())>("(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())", vec![u16_::<(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())>(), u32_::<(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())>(), u64_::<(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())>(), u128_::<(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())>(), small_::<(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())>(), p16_::<(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())>()]));
    v.push(ty::<[Tri; 6]>("[Tri; 6]", vec![u16_::<[Tri; 6]>(), u32_::<[Tri; 6]>(), u64_::<[Tri; 6]>(), u128_::<[Tri; 6]>(), small_::<[Tri; 6]>(), p16_::<[Tri; 6]>()]));
    v.push(ty::<(N32, (N16, [bool; 12]))>("(N32, (N16, [bool; 12]))", vec![u64_::<(N32, (N16, [bool; 12]))>(), u128_::<(N32, (N16, [bool; 12]))>()]));
}
