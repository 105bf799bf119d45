// generated by tools/gentext.py; do not edit
verus! {

#[verifier::opaque]
pub open spec fn table_0() -> Seq<u16> { seq![160u16, 161u16, 162u16, 163u16, 8364u16, 165u16, 0u16, 167u16, 164u16, 8216u16, 8220u16, 171u16, 8592u16, 8593u16, 8594u16, 8595u16, 176u16, 177u16, 178u16, 179u16, 215u16, 181u16, 182u16, 183u16, 247u16, 8217u16, 8221u16, 187u16, 188u16, 189u16, 190u16, 191u16, 0u16, 768u16, 769u16, 770u16, 771u16, 772u16, 774u16, 775u16, 776u16, 0u16, 778u16, 807u16, 0u16, 779u16, 808u16, 780u16, 8213u16, 185u16, 174u16, 169u16, 8482u16, 9834u16, 172u16, 166u16, 0u16, 0u16, 0u16, 0u16, 8539u16, 8540u16, 8541u16, 8542u16, 8486u16, 198u16, 272u16, 170u16, 294u16, 0u16, 306u16, 319u16, 321u16, 216u16, 338u16, 186u16, 222u16, 358u16, 330u16, 329u16, 312u16, 230u16, 273u16, 240u16, 295u16, 305u16, 307u16, 320u16, 322u16, 248u16, 339u16, 223u16, 254u16, 359u16, 331u16, 173u16] }

#[verifier::opaque]
pub open spec fn table_1() -> Seq<u16> { seq![160u16, 161u16, 162u16, 163u16, 164u16, 165u16, 166u16, 167u16, 168u16, 169u16, 170u16, 171u16, 172u16, 173u16, 174u16, 175u16, 176u16, 177u16, 178u16, 179u16, 180u16, 181u16, 182u16, 183u16, 184u16, 185u16, 186u16, 187u16, 188u16, 189u16, 190u16, 191u16, 192u16, 193u16, 194u16, 195u16, 196u16, 197u16, 198u16, 199u16, 200u16, 201u16, 202u16, 203u16, 204u16, 205u16, 206u16, 207u16, 208u16, 209u16, 210u16, 211u16, 212u16, 213u16, 214u16, 215u16, 216u16, 217u16, 218u16, 219u16, 220u16, 221u16, 222u16, 223u16, 224u16, 225u16, 226u16, 227u16, 228u16, 229u16, 230u16, 231u16, 232u16, 233u16, 234u16, 235u16, 236u16, 237u16, 238u16, 239u16, 240u16, 241u16, 242u16, 243u16, 244u16, 245u16, 246u16, 247u16, 248u16, 249u16, 250u16, 251u16, 252u16, 253u16, 254u16, 255u16] }

#[verifier::opaque]
pub open spec fn table_2() -> Seq<u16> { seq![160u16, 260u16, 728u16, 321u16, 164u16, 317u16, 346u16, 167u16, 168u16, 352u16, 350u16, 356u16, 377u16, 173u16, 381u16, 379u16, 176u16, 261u16, 731u16, 322u16, 180u16, 318u16, 347u16, 711u16, 184u16, 353u16, 351u16, 357u16, 378u16, 733u16, 382u16, 380u16, 340u16, 193u16, 194u16, 258u16, 196u16, 313u16, 262u16, 199u16, 268u16, 201u16, 280u16, 203u16, 282u16, 205u16, 206u16, 270u16, 272u16, 323u16, 327u16, 211u16, 212u16, 336u16, 214u16, 215u16, 344u16, 366u16, 218u16, 368u16, 220u16, 221u16, 354u16, 223u16, 341u16, 225u16, 226u16, 259u16, 228u16, 314u16, 263u16, 231u16, 269u16, 233u16, 281u16, 235u16, 283u16, 237u16, 238u16, 271u16, 273u16, 324u16, 328u16, 243u16, 244u16, 337u16, 246u16, 247u16, 345u16, 367u16, 250u16, 369u16, 252u16, 253u16, 355u16, 729u16] }

#[verifier::opaque]
pub open spec fn table_3() -> Seq<u16> { seq![160u16, 294u16, 728u16, 163u16, 164u16, 0u16, 292u16, 167u16, 168u16, 304u16, 350u16, 286u16, 308u16, 173u16, 0u16, 379u16, 176u16, 295u16, 178u16, 179u16, 180u16, 181u16, 293u16, 183u16, 184u16, 305u16, 351u16, 287u16, 309u16, 189u16, 0u16, 380u16, 192u16, 193u16, 194u16, 0u16, 196u16, 266u16, 264u16, 199u16, 200u16, 201u16, 202u16, 203u16, 204u16, 205u16, 206u16, 207u16, 0u16, 209u16, 210u16, 211u16, 212u16, 288u16, 214u16, 215u16, 284u16, 217u16, 218u16, 219u16, 220u16, 364u16, 348u16, 223u16, 224u16, 225u16, 226u16, 0u16, 228u16, 267u16, 265u16, 231u16, 232u16, 233u16, 234u16, 235u16, 236u16, 237u16, 238u16, 239u16, 0u16, 241u16, 242u16, 243u16, 244u16, 289u16, 246u16, 247u16, 285u16, 249u16, 250u16, 251u16, 252u16, 365u16, 349u16, 729u16] }

#[verifier::opaque]
pub open spec fn table_4() -> Seq<u16> { seq![160u16, 260u16, 312u16, 342u16, 164u16, 296u16, 315u16, 167u16, 168u16, 352u16, 274u16, 290u16, 358u16, 173u16, 381u16, 175u16, 176u16, 261u16, 731u16, 343u16, 180u16, 297u16, 316u16, 711u16, 184u16, 353u16, 275u16, 291u16, 359u16, 330u16, 382u16, 331u16, 256u16, 193u16, 194u16, 195u16, 196u16, 197u16, 198u16, 302u16, 268u16, 201u16, 280u16, 203u16, 278u16, 205u16, 206u16, 298u16, 272u16, 325u16, 332u16, 310u16, 212u16, 213u16, 214u16, 215u16, 216u16, 370u16, 218u16, 219u16, 220u16, 360u16, 362u16, 223u16, 257u16, 225u16, 226u16, 227u16, 228u16, 229u16, 230u16, 303u16, 269u16, 233u16, 281u16, 235u16, 279u16, 237u16, 238u16, 299u16, 273u16, 326u16, 333u16, 311u16, 244u16, 245u16, 246u16, 247u16, 248u16, 371u16, 250u16, 251u16, 252u16, 361u16, 363u16, 729u16] }

#[verifier::opaque]
pub open spec fn table_5() -> Seq<u16> { seq![160u16, 1025u16, 1026u16, 1027u16, 1028u16, 1029u16, 1030u16, 1031u16, 1032u16, 1033u16, 1034u16, 1035u16, 1036u16, 173u16, 1038u16, 1039u16, 1040u16, 1041u16, 1042u16, 1043u16, 1044u16, 1045u16, 1046u16, 1047u16, 1048u16, 1049u16, 1050u16, 1051u16, 1052u16, 1053u16, 1054u16, 1055u16, 1056u16, 1057u16, 1058u16, 1059u16, 1060u16, 1061u16, 1062u16, 1063u16, 1064u16, 1065u16, 1066u16, 1067u16, 1068u16, 1069u16, 1070u16, 1071u16, 1072u16, 1073u16, 1074u16, 1075u16, 1076u16, 1077u16, 1078u16, 1079u16, 1080u16, 1081u16, 1082u16, 1083u16, 1084u16, 1085u16, 1086u16, 1087u16, 1088u16, 1089u16, 1090u16, 1091u16, 1092u16, 1093u16, 1094u16, 1095u16, 1096u16, 1097u16, 1098u16, 1099u16, 1100u16, 1101u16, 1102u16, 1103u16, 8470u16, 1105u16, 1106u16, 1107u16, 1108u16, 1109u16, 1110u16, 1111u16, 1112u16, 1113u16, 1114u16, 1115u16, 1116u16, 167u16, 1118u16, 1119u16] }

#[verifier::opaque]
pub open spec fn table_6() -> Seq<u16> { seq![160u16, 0u16, 0u16, 0u16, 164u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 1548u16, 173u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 1563u16, 0u16, 0u16, 0u16, 1567u16, 0u16, 1569u16, 1570u16, 1571u16, 1572u16, 1573u16, 1574u16, 1575u16, 1576u16, 1577u16, 1578u16, 1579u16, 1580u16, 1581u16, 1582u16, 1583u16, 1584u16, 1585u16, 1586u16, 1587u16, 1588u16, 1589u16, 1590u16, 1591u16, 1592u16, 1593u16, 1594u16, 0u16, 0u16, 0u16, 0u16, 0u16, 1600u16, 1601u16, 1602u16, 1603u16, 1604u16, 1605u16, 1606u16, 1607u16, 1608u16, 1609u16, 1610u16, 1611u16, 1612u16, 1613u16, 1614u16, 1615u16, 1616u16, 1617u16, 1618u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16] }

#[verifier::opaque]
pub open spec fn table_7() -> Seq<u16> { seq![160u16, 8216u16, 8217u16, 163u16, 8364u16, 8367u16, 166u16, 167u16, 168u16, 169u16, 890u16, 171u16, 172u16, 173u16, 0u16, 8213u16, 176u16, 177u16, 178u16, 179u16, 900u16, 901u16, 902u16, 183u16, 904u16, 905u16, 906u16, 187u16, 908u16, 189u16, 910u16, 911u16, 912u16, 913u16, 914u16, 915u16, 916u16, 917u16, 918u16, 919u16, 920u16, 921u16, 922u16, 923u16, 924u16, 925u16, 926u16, 927u16, 928u16, 929u16, 0u16, 931u16, 932u16, 933u16, 934u16, 935u16, 936u16, 937u16, 938u16, 939u16, 940u16, 941u16, 942u16, 943u16, 944u16, 945u16, 946u16, 947u16, 948u16, 949u16, 950u16, 951u16, 952u16, 953u16, 954u16, 955u16, 956u16, 957u16, 958u16, 959u16, 960u16, 961u16, 962u16, 963u16, 964u16, 965u16, 966u16, 967u16, 968u16, 969u16, 970u16, 971u16, 972u16, 973u16, 974u16, 0u16] }

#[verifier::opaque]
pub open spec fn table_8() -> Seq<u16> { seq![160u16, 0u16, 162u16, 163u16, 164u16, 165u16, 166u16, 167u16, 168u16, 169u16, 215u16, 171u16, 172u16, 173u16, 174u16, 175u16, 176u16, 177u16, 178u16, 179u16, 180u16, 181u16, 182u16, 183u16, 184u16, 185u16, 247u16, 187u16, 188u16, 189u16, 190u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 8215u16, 1488u16, 1489u16, 1490u16, 1491u16, 1492u16, 1493u16, 1494u16, 1495u16, 1496u16, 1497u16, 1498u16, 1499u16, 1500u16, 1501u16, 1502u16, 1503u16, 1504u16, 1505u16, 1506u16, 1507u16, 1508u16, 1509u16, 1510u16, 1511u16, 1512u16, 1513u16, 1514u16, 0u16, 0u16, 8206u16, 8207u16, 0u16] }

#[verifier::opaque]
pub open spec fn table_9() -> Seq<u16> { seq![160u16, 161u16, 162u16, 163u16, 164u16, 165u16, 166u16, 167u16, 168u16, 169u16, 170u16, 171u16, 172u16, 173u16, 174u16, 175u16, 176u16, 177u16, 178u16, 179u16, 180u16, 181u16, 182u16, 183u16, 184u16, 185u16, 186u16, 187u16, 188u16, 189u16, 190u16, 191u16, 192u16, 193u16, 194u16, 195u16, 196u16, 197u16, 198u16, 199u16, 200u16, 201u16, 202u16, 203u16, 204u16, 205u16, 206u16, 207u16, 286u16, 209u16, 210u16, 211u16, 212u16, 213u16, 214u16, 215u16, 216u16, 217u16, 218u16, 219u16, 220u16, 304u16, 350u16, 223u16, 224u16, 225u16, 226u16, 227u16, 228u16, 229u16, 230u16, 231u16, 232u16, 233u16, 234u16, 235u16, 236u16, 237u16, 238u16, 239u16, 287u16, 241u16, 242u16, 243u16, 244u16, 245u16, 246u16, 247u16, 248u16, 249u16, 250u16, 251u16, 252u16, 305u16, 351u16, 255u16] }

#[verifier::opaque]
pub open spec fn table_10() -> Seq<u16> { seq![160u16, 260u16, 274u16, 290u16, 298u16, 296u16, 310u16, 167u16, 315u16, 272u16, 352u16, 358u16, 381u16, 173u16, 362u16, 330u16, 176u16, 261u16, 275u16, 291u16, 299u16, 297u16, 311u16, 183u16, 316u16, 273u16, 353u16, 359u16, 382u16, 8213u16, 363u16, 331u16, 256u16, 193u16, 194u16, 195u16, 196u16, 197u16, 198u16, 302u16, 268u16, 201u16, 280u16, 203u16, 278u16, 205u16, 206u16, 207u16, 208u16, 325u16, 332u16, 211u16, 212u16, 213u16, 214u16, 360u16, 216u16, 370u16, 218u16, 219u16, 220u16, 221u16, 222u16, 223u16, 257u16, 225u16, 226u16, 227u16, 228u16, 229u16, 230u16, 303u16, 269u16, 233u16, 281u16, 235u16, 279u16, 237u16, 238u16, 239u16, 240u16, 326u16, 333u16, 243u16, 244u16, 245u16, 246u16, 361u16, 248u16, 371u16, 250u16, 251u16, 252u16, 253u16, 254u16, 312u16] }

#[verifier::opaque]
pub open spec fn table_11() -> Seq<u16> { seq![160u16, 3585u16, 3586u16, 3587u16, 3588u16, 3589u16, 3590u16, 3591u16, 3592u16, 3593u16, 3594u16, 3595u16, 3596u16, 3597u16, 3598u16, 3599u16, 3600u16, 3601u16, 3602u16, 3603u16, 3604u16, 3605u16, 3606u16, 3607u16, 3608u16, 3609u16, 3610u16, 3611u16, 3612u16, 3613u16, 3614u16, 3615u16, 3616u16, 3617u16, 3618u16, 3619u16, 3620u16, 3621u16, 3622u16, 3623u16, 3624u16, 3625u16, 3626u16, 3627u16, 3628u16, 3629u16, 3630u16, 3631u16, 3632u16, 3633u16, 3634u16, 3635u16, 3636u16, 3637u16, 3638u16, 3639u16, 3640u16, 3641u16, 3642u16, 0u16, 0u16, 0u16, 0u16, 3647u16, 3648u16, 3649u16, 3650u16, 3651u16, 3652u16, 3653u16, 3654u16, 3655u16, 3656u16, 3657u16, 3658u16, 3659u16, 3660u16, 3661u16, 3662u16, 3663u16, 3664u16, 3665u16, 3666u16, 3667u16, 3668u16, 3669u16, 3670u16, 3671u16, 3672u16, 3673u16, 3674u16, 3675u16, 0u16, 0u16, 0u16, 0u16] }

#[verifier::opaque]
pub open spec fn table_13() -> Seq<u16> { seq![160u16, 8221u16, 162u16, 163u16, 164u16, 8222u16, 166u16, 167u16, 216u16, 169u16, 342u16, 171u16, 172u16, 173u16, 174u16, 198u16, 176u16, 177u16, 178u16, 179u16, 8220u16, 181u16, 182u16, 183u16, 248u16, 185u16, 343u16, 187u16, 188u16, 189u16, 190u16, 230u16, 260u16, 302u16, 256u16, 262u16, 196u16, 197u16, 280u16, 274u16, 268u16, 201u16, 377u16, 278u16, 290u16, 310u16, 298u16, 315u16, 352u16, 323u16, 325u16, 211u16, 332u16, 213u16, 214u16, 215u16, 370u16, 321u16, 346u16, 362u16, 220u16, 379u16, 381u16, 223u16, 261u16, 303u16, 257u16, 263u16, 228u16, 229u16, 281u16, 275u16, 269u16, 233u16, 378u16, 279u16, 291u16, 311u16, 299u16, 316u16, 353u16, 324u16, 326u16, 243u16, 333u16, 245u16, 246u16, 247u16, 371u16, 322u16, 347u16, 363u16, 252u16, 380u16, 382u16, 8217u16] }

#[verifier::opaque]
pub open spec fn table_14() -> Seq<u16> { seq![160u16, 7682u16, 7683u16, 163u16, 266u16, 267u16, 7690u16, 167u16, 7808u16, 169u16, 7810u16, 7691u16, 7922u16, 173u16, 174u16, 376u16, 7710u16, 7711u16, 288u16, 289u16, 7744u16, 7745u16, 182u16, 7766u16, 7809u16, 7767u16, 7811u16, 7776u16, 7923u16, 7812u16, 7813u16, 7777u16, 192u16, 193u16, 194u16, 195u16, 196u16, 197u16, 198u16, 199u16, 200u16, 201u16, 202u16, 203u16, 204u16, 205u16, 206u16, 207u16, 372u16, 209u16, 210u16, 211u16, 212u16, 213u16, 214u16, 7786u16, 216u16, 217u16, 218u16, 219u16, 220u16, 221u16, 374u16, 223u16, 224u16, 225u16, 226u16, 227u16, 228u16, 229u16, 230u16, 231u16, 232u16, 233u16, 234u16, 235u16, 236u16, 237u16, 238u16, 239u16, 373u16, 241u16, 242u16, 243u16, 244u16, 245u16, 246u16, 7787u16, 248u16, 249u16, 250u16, 251u16, 252u16, 253u16, 375u16, 255u16] }

#[verifier::opaque]
pub open spec fn table_15() -> Seq<u16> { seq![160u16, 161u16, 162u16, 163u16, 8364u16, 165u16, 352u16, 167u16, 353u16, 169u16, 170u16, 171u16, 172u16, 173u16, 174u16, 175u16, 176u16, 177u16, 178u16, 179u16, 381u16, 181u16, 182u16, 183u16, 382u16, 185u16, 186u16, 187u16, 338u16, 339u16, 376u16, 191u16, 192u16, 193u16, 194u16, 195u16, 196u16, 197u16, 198u16, 199u16, 200u16, 201u16, 202u16, 203u16, 204u16, 205u16, 206u16, 207u16, 208u16, 209u16, 210u16, 211u16, 212u16, 213u16, 214u16, 215u16, 216u16, 217u16, 218u16, 219u16, 220u16, 221u16, 222u16, 223u16, 224u16, 225u16, 226u16, 227u16, 228u16, 229u16, 230u16, 231u16, 232u16, 233u16, 234u16, 235u16, 236u16, 237u16, 238u16, 239u16, 240u16, 241u16, 242u16, 243u16, 244u16, 245u16, 246u16, 247u16, 248u16, 249u16, 250u16, 251u16, 252u16, 253u16, 254u16, 255u16] }

/// characters of the codes 0xA0 .. 0xFF, 0 where the code is not assigned
pub open spec fn table(cp: int) -> Option<Seq<u16>> {
    if cp == 0 { Some(table_0()) } else if cp == 1 { Some(table_1()) } else if cp == 2 { Some(table_2()) } else if cp == 3 { Some(table_3()) } else if cp == 4 { Some(table_4()) } else if cp == 5 { Some(table_5()) } else if cp == 6 { Some(table_6()) } else if cp == 7 { Some(table_7()) } else if cp == 8 { Some(table_8()) } else if cp == 9 { Some(table_9()) } else if cp == 10 { Some(table_10()) } else if cp == 11 { Some(table_11()) } else if cp == 13 { Some(table_13()) } else if cp == 14 { Some(table_14()) } else if cp == 15 { Some(table_15()) } else { None }
}

} // verus!
