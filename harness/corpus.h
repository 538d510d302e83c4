// recorded telegrams (from the project's own test frames), used as generator seeds
#pragma once
#include "vf.h"
static const char *const CORPUS[] = {
"68040468080170088116",
"68040468080170027b16",
"680303680801707916",
"681c1c680802727856341224400107550000000313153100da023b13018b6004c716",
"681e1e680802727856341224400107550000000313153100da023b13018b600437181616",
"681a1a680802727856341224400107550000000313153100da023b13018b6316",
"681b1b680802727856341224400107550000000313153100da023b13018b8bee16",
"68040468080170047d16",
"682e2e680805723408005496153200f200000001fd1b0002fc0348522574d41122fc0348522574c81112fc1348522574b4165b16",
"681b1b680802727856341224400107550000000313153100da023b13018b60c316",
"682e2e680805723408005496153200f200000001fd1b0002fc0348522574d41122fc0348522574c81112fcf348522574b4163b16",
"682929680802727856341224400107550000000313153100da023b13018b8b8b8b8b8b8b8b8b8b8b60043718028616",
"68040468080170057e16",
"68040468080170098216",
"68040468080170037c16",
"682a2a680802727856341224400107550000000313153100da023b13018b60848484848484848484848404371802c416",
"68040468080170067f16",
"680808680802727856341224b416",
"68040468080170017a16",
"68040468080170007916",
"683c3c680808727803491177040e160a0000000c7878034911041331d40000426c0000441300000000046d0b0bcd130227000009fd0e0209fd0f060f00017513d316",
"685656680801722315010977041407250000000c78231501090d7c084449202e747375630a353537363730414c3930046d1a0ecd13027c09656d6974202e746162d40904131f00000004937f0000000044131f0000000f00011fa916",
"68aeae682801729508121183140204170000008400863b230000008400863cd10100008440863b000000008440863c0000000085005b2b4bac4185005f20d7ac4185405b0000b84285405f0000b84285003b8400353f85403b0000000095003b95cfb24395403b0000000085002b0000000085402b0000000095002bd39f904695402b00000000046d190f8a1784007c0143f30d000084407c01439d01000084007c01630100000084407c0163010000000f2f16",
"68a1a16808007245330824c5140004662700000478917b6f01046d172ecc13041500000000441500000000840115000000000406000000004406000000008401060000000084100600000000c410060000000084110600000000426cbf1c026cdf1c8420060000000084300600000000043b00000000143b19000000042b00000000142b0b000000025b1600025f150004610900000002230c0201fd17000490280b000000eb16",
"68515168080b7254029904c51400060c27000004782e254c00046d0a0ccd1304134c01000044134b0100008401134c010000426cbf1c026cdf1c043b00000000143b160800000223a70401fd1700049028080000003f16",
"686868680800725139494493152f04a17000000c06000000008c1006000000008c2013000000000c13000000003c2bbdebdddd3b3bbdebdd0a5a27020a5e26020a6201000a273007046d090dcd134c06000000004c1300000000cc100600000000cc201300000000426cbf154016",
"68535368080b7261150124961516003f00000001fd1b0202fc0348522574221522fc0348522574240d12fc0348522574c31c02652e0822655c051265a20b01721842652c088201651f080c786115012403fd0f0000041fbd16",
"68f4f46808007229260300b5151002020000000c7829260300841003540500008420030000000084904003ae1e000084a040030000000004abff01feffffff04abff020000000004abff0300000000042bfeffffff848040abff010e000000848040abff0200000000848040abff03000000008480402b0e00000002fdc8ff01d10802fdc8ff02000002fdc8ff03000022fdc8ff01520722fdc8ff02000022fdc8ff03000012fdc8ff016a0912fdc8ff02000012fdc8ff03000003fdd9ff01beffff03fdd9ff0200000003fdd9ff0300000003fd59beffff01ffe1ff010d01ffe1ff020001ffe1ff030002ff52f40102fd60380001fd17007416",
"6890906808017257268000cd4e08044600000004069814000004146bd6010084401479660100025b1c00025f2200026200000422b1a100000426b1a10000043b00000000042c00000000046d0c0cbd1684406e000000008480406e000000001fc409010112000101010757268000cd4e080407a3ff035726800004040d02ff0f053cff62e762960a890a02001540170100006342de16",
"68383868081972076200232e192302920000008c1004682817008c11046828170002fdc9ff01e60002fddbff01060002acff0109008240acff01fdff5b16",
"681b1b6808017207201800e61e35074c0000000c78072018000c16690200009616",
"6840406808017258200812e2304003400000002f2f4c1392408310466d0000081627000d781134313835303238303231393537313030478940fd1a0101fd170001fd670f3816",
"682f2f6808167201632111ac484103b10000000c1481608702046da115e917426cdf1c4c148273590242ec7eff1c0fc001010cbd16",
"6892926808287255000019434c1602bf0000008c1004930200008c1104930200008c2004060000008c21040600000002fdc9ff01df0002fddbff01000002acff0100008240acff01000002fdc9ff02000002fddbff02000002acff0200008240acff02000002fdc9ff03000002fddbff03000002acff0300008240acff03000002ff68000002acff0000008240acff00000001ff14000a16",
"6871716808047288170100ae4c060d3e000000046d3b0ee714346d0000010134fd170000000404209222f1000424a41ae70004863b979b00000413be095e00052eb1d12ebe053ef5b84e40055bb82df941055f788bf941056300803bbd04be5071bbb00004be58f40200000c7888170100027f10b55d16",
"6842426808007295502621ae4c0e04b51000000c06000000000c13000000000c3b000000000c2b00000000025ac900025eca0003600000000c78955026210cfd10955026211fec16",
"6841416808007289163524ae4c0b04541000000c07000000000c14000000000c3c000000000c2c00000000325a0000325e000033600000000c78891635240cfd1089163524ce16",
"685c5c6808047214738111824d0604030000000c78147381110c06000000000c14020000000a3b00000b5a1802000b5e2002000b611800f03226000002279804046d020ecd138440147b000000848040144101000009fd0e0309fd0f180f0016db16",
"6852526808e67202000000961515000d00000001fd1b0202fc0348522574341222fc0348522574c60e12fc034852257402140265d6082265ca081265160901720072650000b2016500000c780200000002fd0f04031f9616",
"68efef68080272845042314d6a81047327000004060300000002fd17000084046d0000e111840406030000008405060300000004134a000000043b00000000543b2b000000546d1e086119042d0000000094012d1400000094016d1e08611902591708025df607046d2d0ccd138280016cc1138480010603000000c280016cc112c4800106030000008281016cc1118481010603000000c281016ca11cc4810106030000008282016ca11b8482010603000000c282016ca11ac4820106030000008283016ca1198483010603000000c283016ca118c4830106030000009280016cc1139480013b000000009480012d000000008f16",
"689898680801721234567842040202450000000e84000000000000008e1084000000000000008e2084000000000000008eb00084000000000000008e801084000000000000008e804084000000000000008e904084000000000000008ea04084000000000000008eb04084000000000000008e8050840000000000000001ff9300000cff92000000000107fd9700000000000000000001ff9800001f7516",
"685e5e680800729085712624232804735000000c05000000000c12420700003c2addb4ebdd3b3addb4eb0a5a04020a5e04020a620000046d22108d114c0500000000446d3b177e1444ed7e3b179e148c01050000000084016d3b177f1c0b265365080416",
"683d3d6808017200512002824d0204008800000407000000000c15030000000b2e0000000b3b0000000a5a88120a5e16050b61237700026c8c110227370d0f60006716",
"6838386808c87209315403b405b004c910ffff03229a0000052ea0c85146053eb4e3d742055b90d30743055f0eaae74105639cbcd542046d100905c57716",
"68a3a3680800720000000042040202000000000e040000000000008e10040000000000008e20040000000000008eb000040000000000008e8010040000000000008e8040040000000000008e9040040000000000008ea040040000000000008eb040040000000000008e80500400000000000001ff13000bff120000000aff6800000aff69000007fd17000000000000000001ff18001f00000000000000000000000000000000fc16",
"68909068080a727865342124400102550000000bfd475634120bfd475634120bfd475634120bfd475634120bfd475634120bfd475634120bfd595634120bfd595634120bfd595634120bfd595634120b2a5634120b2a5634120b2a5634120b2a5634120bfd3a5634120bfd3a5634120bfd3a5634120bfd3a5634120afd3a00050afd3a05000afd3a05000afd3a05000afd3a50004d16",
"689292680801723e020005434c1202130000008c1004521200008c1104521200008c2004334477018c21043344770102fdc9ff01ed0002fddbff01200002acff014f008240acff01eeff02fdc9ff02e70002fddbff02230002acff0251008240acff02f1ff02fdc9ff03e40002fddbff03450002acff03a0008240acff03e0ff02ff68000002acff0040018240acff00bfff01ff1304d916",
"68929268080272e502000500001202250000008c1004540200008c1104540200008c2004284144008c21042841440002fdc9ff01e90002fddbff01010002acff0100008240acff01000002fdc9ff02ea0002fddbff02000002acff0200008240acff02000002fdc9ff03eb0002fddbff03010002acff0300008240acff03000002ff68000002acff0000008240acff00000001ff1304e916",
"684a4a680801724523117093150a07020000000c1367452301046d3a0de602426ce1014c135169450042ec7e0111123b3917426c0111023bf9170f0e42200101010005085e01203d12083d120800c016",
"682c2c680801724523117093150207020000000c1367452301046d3a0de602426ce1014c135169450042ec7e01110f006116",
"685353680805723408005496153200f200000001fd1b0002fc0348522574d41122fc0348522574c81112fc0348522574b4160265d00822657008126523090172184265e408820165dd080c783408005403fd0f0000041f5d16",
"6821216808017202376200a8150002070000008c100409040000c4002a0000000001fd17008c16",
"68a6a66808037210003810c51401041e0000000478ea629e00046d3214861604158100000004fb00080000008420fb00000000008430fb0000000000043d00000000042d00000000025b5f00025f2b0004618a1400000227fa0101fd1700049028a0860100426c7f1c44158100000044fb0008000000c420fb0000000000c430fb000000000082016c5f1c840115540000008401fb00050000008421fb00000000008431fb0000000000b716",
"6825256808007200000000cd250102000000000d7c025750f096075b2a27a693013db51ab3dcd13e17d516",
"6831316808017245585703b40534049e0027b60306f934150315c6004d052e00000000053d00000000055b22f32642055fc7da0d42fa16",
"6831316808017245585703b4053404a10027b60306f934150315c6004d052e00000000053d00000000055b1ed82442055fd98a0d429e16",
"681f1f68080072317767172d2c0102000000002f2f04833b881300002f2f2f2f2f2f2f0016",
"68545468080072580906106532160e7b0000000f5f420111ffffffff010000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000e616",
"681f1f680802727856341224400107550000000313153100da023b13018b60043718021816",
"6891916808037278563412a31de602020000008240fd486003828040fd48bf0382c040fd4820048240fd59bd03828040fd591f0482c040fd597e0482402be00082402b36ff84100494280000842004983a0000845004bf4e0000846004a8610000849040048b75000084a04004b888000084d040042d9d000084e04004c8af000082412be00082422b000082432b000082442bca004216",
"683c3c680808727803491177040e16290000000c7878034911041331d40000426c0000441300000000046d1d0d98110227000009fd0e0209fd0f060f00008f13e816",
"686464680806728551151177040a0d1b1000000c78855115110406000000000c14000000003b2d9999990b3b0000003a5a99993a5e99993b61999999046d180d98110227680009fd0e1109fd0f268cc00016210300008c8040142301000004863c000000000f03208516",
"684d4d680807726776121177040b0c0b1000000c78677612110407000000000c16000000003b2d9999990b3b0000003a5a99993a5e99993b61999999046d2f0b98110227fc0009fd0e1009fd0f210f03205416",
"684d4d680809729100101177040904511000000c78910010110406000000000c14000000003b2d9999993b3b9999990a5a05020a5e06020b61090000046d1d0d98110227810109fd0e1909fd0f450f2000e716",
"685656680808728003021077041416a10000000c78800302100d7c084449202e747375630a20202020202020202020046d270f791a027c09656d6974202e746162d20f0415b711000004957f000000004415b71100000f00041f0d16",
"6856566808047287030210770414039a0000000c78870302100d7c084449202e747375630a20202020202020202020046d2b0f791a027c09656d6974202e746162d20f04141a00000004947f000000004414190000000f00021f9f16",
"6856566808017271000012770414070a3000000c78710000120d7c084449202e747375630a454c4259432054534554046d2b0d9811027c09656d6974202e746162f21004143d30000004947f140000004414000000000f10011f2f16",
"685c5c6808047214738111824d06045d0000000c78147381110c06000000000c14020000000a3b00000b5a1202000b5e1102000b610700003226000002278d01046d110e98118440147b000000848040144101000009fd0e0309fd0f180f0016e916",
"68464668087872209183142d2c010204000000040600000000042209000000042b00000000142b0000000084500600000000846006000000000f000000000000000000000000000000102416",
"68f7f768081172175885062d2c0804040000000c78175885060406e791000004142cdb00000422d90300000459b9270000045d081200000461b1150000042d5b010000142dc0010000043b1f020000143b74020000841006000000008420060000000084401400000000848040140000000084c0400600000000046d1a2f65114406518200004414b2c30000542d26020000543b03040000c4100600000000c4200600000000c4401400000000c480401400000000c4c0400600000000426c5f1c0f00000000e7e40000636600000000000000000000000000005bc9a50234530000e0b20300899c680000000000010001070709010300000000009816",
"68e2e26808007205026666a7320704011000000974040970080c06000000000c14000000000b2d0000000b3b0000000b5a9501000b5e9701000b620200f00c7805026666891071073c22693700000c22693700000c26000000008c901006000000009b102d0000009b103b0000009b105a0703009b105e0705009410ad6f000000009410bb6f000000009410da6f32147a189410de6f2b0b69184c06000000004c14000000007c22693400004c2600000000cc90100600000000db102d000000db103b000000db105a070300db105e070500848f0f6d0000e1f1046d040c8d110f09070066017d16",
"68131368080573785634120a00e97e01000000350100003c16",
"681f1f680802727856341224400107550000000313153100da023b13018b60043718021816",
"681515680802727856341224400107130000000c78040302019d16",
"6842426808007246019544184e3404541000000c07000000000c14000000000c3c000000000c2c000000000a5a00000a5e00000b600000000c78460195440cfd10460195441f8216",
"68f8f86808647254008101a73202040f1000000974040970040c06699901000c14189264020b2e0000000b3b0000000a5b00000a5f00000a6200004c14189264024c06699901000c7854001165891071609b102d160300db102d1603009b103b2088009a105b44009a105f40000c22670007003c22091605007c2217780400426c01018c2006000000008c3006000000008c80100600000000cc200600000000cc300600000000cc801006000000009a115b36009a115f40009b113b0000009b112d000000bc0122651405008c0106699901008c2106000000008c3106000000008c811006000000008c011418926402046d260087160f03020000234616",
"68efef68080272845042314d6a81042427000004060300000002fd17000084046d0000a1118404060300000084050600000000041349000000043b00000000543b2b000000546d1e086119042d0000000094012d1400000094016d1e0861190259d907025d8707046d350b8d118280016c81118480010603000000c280016c611cc4800106030000008281016c611b8481010603000000c281016c611ac4810106030000008282016c61198482010600000000c282016c6118c4820106000000008283016c61178483010600000000c283016c6116c4830106000000009280016c81119480013b010000009480012d000000008e16",
"68cdcd68080072592780314d6a82042b000000040600000000041401000000042d00000000043c0000000002590000025d000084040600000000c4046d0000811194012d0000000094016d1e0b8d11543c01000000546d1e0778138c4079000000008140fd090784401301000000c40413010000008c804079000000008480401301000000818040fd09078405130100000002fd170400046d010c8d118280016c8111848001060000000084c001130100000084804113010000009280016c81119480013c000000009480012d00000000aa16",
"6832326808057208061030523b0102010000000403fa04000004837ffa04000002fd48440902fd5b0000022b00000c78080610300f0e7116",
"6820206808fd7278563412931533032a0000000c1427048502046d32371f1502fd1700008916",
"6829296808fd7244227592242329071f0000000c13270485020b3b2701004c1319544401426cff0c02fd1700009916",
"683c3c6808fd727856341224232a04260000000c06270485020c13763470004c0619544401426cff0c0b3b2701000b2a9732000a5a43040a5e510202fd170000c816",
"68c4c468080072765702002d4803078b000000041384270000046d2815b21a426cbc194413c920000042ec7edc190c787657020082016cbe198401134f210000c2016c9f1ac40113fbe0f50582026c9e1b840213f9e0f505c2026c9f1cc402130e03000082036cbf1184031389070000c2036cbc12c40313140c000082046cbf1384041335120000c2046cbe14c404139f12000082056cbf1584051304140000c2056cbe16c405133814000082066cbf178406137e140000c2066cbf18c40613241600000f0100008216",
"682f2f6808047204000000ac481200010000000c0000000000046d100d3409426c1f0c4c000000000042ec7e3f0c0f43010100d016",
"682f2f6808017201010301ac4840081e0000000c6e87190000046d290a1f0c426c1f0c4c6e0213000042ec7e3f0c0fc001010c4016",
"6842426808007245009463ae4c0804f90000000c06199001000c13191162010c3b000000000c2b00000000025a6701025ee90003604631000c78450094630cfd10450094631fb616",
"68131368080173939291901000056931650000690000003f16",
"6842426808087276000521184e3104510000000c07640800000c14929879000c7b020300000c2c585400000a5a55070a5e94050b607660010c78760005210cfd10760005211fb316",
"68969668080072041129007a3229200c2800000c782071040006fd0cfc036d002d000dfd0b063533324456528130fd7c018120fd7c0001fd7c000f02780400027a040032001e09320800003410000000003118003418ffffffff7118007418ffffffffb1011800b40118fffffffff1011800f40118ffffffffb1021800b40218fffffffff10218003128003428ffffffff7128000101000109002416",
"685959680800728213020865329906eb0000000c13010100000b22520902046d38086e19326c00000c788213020806fd0c0a000100fa010dfd0b05313248465701fd0e000b3b0000000f37fd170000000000000000027a0d0002780d001116",
"685e5e680805729164000865329906da0000000c13000000000b22864004046d240a611c326c00000c789164000806fd0c0a000100fa010dfd0b05313248465701fd0e004c1300000000426c5f1c0f37fd170000000000000000027a2500027825008216",
"6851516808017224064208ee4d0d042c300000040e00000000041400000000055b00000000055f00000000053e00000000052b00000000c4000e00000000c4001400000000c4401400000000c4804014000000001f7116",
"685c5c6808017289600001cd4e090c9470000004066e6d0000041345c6090084401345c60900025bf300025ff300026200000422e21800000426db180000043b00000000042c00000000046d0c15a82284406e000000008480406e000000001fa716",
"683f3f68084e728299512168502604850000000c0500000000046d320d1d094c0500000000426c1d050b3a0000000a5a34020a5e24020c2a000000000c13640000001f0916",
"681b1b6808007212345678a3501001010000000167090a14604592101488131816",
"681f1f68080072317767172d2c0102000000002f2f04833b881300002f2f2f2f2f2f2f0016",
"680000680816",
"681212680801739392919010000569316500006900003f16",
"6806066853fe51017a082516",
"680d0d6853fe51077904030201244001049516",
"680f0f6853fe510c79785634120c06070100005516",
"68dede6808017289600001cd4e0904187000001f45003c017fb009000000000000000000000000000000000000000000c500841198a10100c9180000000000015804872481015b000048180063607d7f3e5f6001000a01029900000e50c300007f7f80010a0000ff0200021800000000281036200602be23bf230a0b10281036200602be23bf230a0b1028103600000000009392c9001000000289600001ffffffffffffffff08060813085a085e0862083d000000000000001001000d0145004608000000000000000000000000000000000000000000000c0a02256e026e6d0000f616",
};
inline vf::Bytes corpus_frame(vf::Gen &g) {
    const char *s = CORPUS[g.below(sizeof CORPUS / sizeof *CORPUS)]; vf::Bytes b;
    for (; s[0] && s[1]; s += 2) { char t[3] = {s[0], s[1], 0}; b.push_back((uint8_t)strtol(t, 0, 16)); }
    return b;
}
