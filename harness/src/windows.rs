// 64-byte windows by the number of leading zero bits the gear hash has after them.
pub const WINDOWS: &[(u32, &str)] = &[
    (13, "9284cffb97485ff02f9fa8a9ba2881067275ab724c341f25764e023e63d6b19224324d1ae1064eb3d52a0ada01514878f57069bf32c7b6580f3df9d0c8cc1514"),
    (13, "0cff8bff4b6012544d392245c44e3db0df5c0670ab74375f4ccf07652d964252ab16b1ee244833e6dbbc5e8dc8724d6d6d6e61c6dd4672d57c7254eb5e9f3f45"),
    (13, "d3ef95bc9384d10c1ecfedfccf13dfc40db6934ffbf2d446a5b1703f9fe6a43e6a7e22c505bf13104dec93c01448b82f0325bfdff16abed7661af8f5b8fda7b1"),
    (13, "b736d4aa1fa6fcd7bd114c757302ce4d9a1f178ae3f02b4470afe28568c4b2fb5ea38b711b42811f28825358c74b69dd0eced7ccfe017d7c071b888542400187"),
    (13, "985bc2a18b30fc1686ec8acbfb104edd3797f7bb1d8296f768b7e9aae7fea05b1e67a106260b35b1b2cf30c4bf5182e275648855ce2bee4842b18d866c0fc22c"),
    (13, "64f10a035ee8cf2d20b9eecd3ae35b76a6109bc22d013881e68fab5b86ff014d245ba321e686c17443b22c5c00df3eea39d9e6e0dd99c1b62ee873730f56588a"),
    (14, "e3bd7971a13b0a122e95ba558f300e66ee0f5f53d907057fc17144597555a9eee2b92392ca1fabd3243f9376b00f3a904a9156dd0145c8a1489907596bb6179c"),
    (14, "f48bae2e113d0d8e79c48de1443f70549143b6f3af70b40da5a27708b0459bf1146ae25443d45b108a41137446085210d44adaa9522fa58b3ce5285b718b1e3b"),
    (14, "ffcf1fc1623664b8e39aba6d182921f029244d0626de2e1f871a4f3449939773280fb96a26d6c4502d82650fd8c052a3dfc33e06409f13927c126a37a2eea2b2"),
    (14, "df5e7b3a40431f0541294322859d459884c11a015d41634a04d770a62c10cfc243f1a40b17d814bf29cb4b46673e3d691d950b94dcd3734eec6a32b21f7cf9cc"),
    (14, "b98b642b55f369c70bc04031df073fb5257e28dd29225e4485c9e4435eb29be4d0ecf2414e935643036a3f5a81a8510fd5369820511f79bb0a4d6c06ab862887"),
    (14, "9a7c9962768c5dd3faeb8726aba01e271c1eda3ed57627da62dd10bdb0c1b0f842ccb3da3300d5b7611a4fbe8b020103cfa8fcd8d5080f30315209bc9c326685"),
    (15, "c204738db1daa85419ee2c4e3cb7f148cdcb01cee63d2ce301ffdf5970448de2ac64f47beabe2c40c9d752f9759dcdccdfc11520488ee2bd41ac303a2942fc2d"),
    (15, "ce782bb48fa061199192d94d1cee1d12ffd2e4a1654f2d0a36a7fe4a1249b31e554ae0541c114bb96ef063dae5b5c2ad35803feb5ac9d4a0f635124ce8e0a972"),
    (15, "15b6053928d4caa85dad601bc808bcaaf823cb208e8ba30aa15c217ee7312297b59311dd7d1f58f7342b838b6ed72bb45496290a26a8436162a4c887cec7b445"),
    (15, "3241fa37c5dc58c2960bbb66be608b1876008378e303005426cafe55befe322dd6711c50d2ee4ee2ac5d716c7479cb3546a4662e7253d611667b1461dd34c7b5"),
    (15, "5557514e027f6d4bd771044f794a7265d2425fb45e1349d79dfc350b020d4a6ed341be4fc6f886b6be5152e9bee9914d95871a9e48623aa6f4b8eb7f71492f01"),
    (15, "20aafa66eb55679b4ee733ab4360f2fdecdcf9e646cec7e75b88e8b7b42626fb1b26066855e4fb3beee430368433c194d845105f28ff48bcb791762a5c4dfeff"),
    (16, "c6c6357442ed89c1a5c7403fed6898c2e8b5bd471fb241f7646e5158c23d96efb26d43b1e900bdaa75c173e9d3e9378827217ad20cc58ac04ec031f92a2c2cba"),
    (16, "04aad2fe68e6f8aada56045f26f55021f0bb6344ed4844b63a0084b4c522325d978079cb96c829867b8fa00bafcf756fb0bbd2dca6ceb77c935172c7e4f5b9e6"),
    (16, "404866906853e7b693b4690fc733ad00ad22084b0aefb238bb7a76ed7d45199b0c8e1c0b9ee252794cdff29554194ba4468cd1188532004db64c7fd3f1b9c460"),
    (16, "6c9fcc2ac9c17acac2eab8175f7d022c901bded9d55784962f499b6d9c8d75b6fd85caed427696c52f4891a3c41c344ce5dace7460aa3c26f042cd7d42d46143"),
    (16, "77d05322bb7c9fd3619583e01d1f82b952f746a084085196461a88150438480cc14125a21507cae766a0b8e4a87d5a0383eb179fb9df07d641385768eb57ce2a"),
    (16, "76b20e9a05397dc13840b8cacbaff9e59ae9659bb2c78d56b75793e92201a7f273c6dfbeec2863ce825e1c42e7b6d31b8ae8852656912f2985b3ccb338fe7bb5"),
    (17, "d7e747af2693d96b2eb9c934f7d08a52665cd65786be1e58e31b4151c746f778835842c958b7957296692fc68d7b3081e1925cbfad608306e93fcc205b14165a"),
    (17, "7ec7a3ad05b19380bd3c0dca7ae38e96ebaa5a4e0eadecac83583169f722c9e1c0eaa0c5c43d18a528a06ac648e0758fd3283715ea031b7aee408cec72754084"),
    (17, "06b332ec357b72b7f46109a90473ae5b82c2cdf34c6c463aed70cb841e13dadcc44335acd6e2fbed495dce1e9a7919e1fb85f719b86ee0891bf7afc941f26a65"),
    (17, "3091791b09289de79f65f238c9bf2519fae79a3bd92752e9033360b5238dc04406409684e7959749f0a4c5ae42eb94c2aea7345970dfcc4ee21d5068875bac0a"),
    (17, "9412a0b002facb51368be38d90b802818795c923c1d827fa591726e8b73b9b8c834fb022da21bbd317415f5e9cae48d558364a1748b0cfbf46c464fb916a61d9"),
    (17, "f48dca516034546d0f3d87cd88f4aef7dbf8d1d0483e8b3a487bac1dbe599f8b5ba82d14eb3a2bbc637f116304f2ac91c4ce8ebd51b11c095ce5c192e5b67d67"),
    (18, "328d87f971710b3dadf67b290505937e7af1c789aef2a9130a1516bdb74b03180ea348dc350f515fa8d69ffd8db90c108e33634044dd284df1f92f71e784bd6a"),
    (18, "62101ad092266700c98346b9d7f7717a8f4dbbd7f8e32c933ca0bc0ac180afbe2205f09d61cdb528d945a259b811600f5d2313339f6f12172bffe9dbe9f99e07"),
    (18, "ec36f740ece4b533787ea39c821238053f95077075110d25df964572990cdb19288117de3e1643180c5cfa3c90a0f4a9a3dc95b7379e854bed98c1d2b5f45867"),
    (18, "c475927d82ca2206ad459ee3478bdfd0ee42fc53b87532c9dec5e9d8b90339bd6aefb7408bee4cf9b885754c06744cc8b69d3daf94b3f7bec00bddb22de44527"),
    (18, "491910823e20309e8c2f25b45e5b9b2ca0d59b2aa594302b5fa3fd16110437550686ceccb006e1f2bc0b4c01edd589c564de6dfba874a2d5246b6f6b2d246890"),
    (18, "f1af4d790dc382ef0d5530e4c887b18a366c104e242ee7f76fd22f0262bbf660784ae1c8ecb847b9de21ef976aa442696fd2a003aa63ab5e232e92fda2620b53"),
    (19, "b985622b6b1842d4c7b78af90ace0d4e4835982d2baaa79a1c4065cfb07f3d8943b6fcd0f0c21ef661b01974e83c31a1575b6326765340201098da7987d4a0c1"),
    (19, "6a6a89a7e6b83d5d02648889231de74096d6894a0489dc9389ce08cd01134d10a19c3761c156ee2dc8dacce57e4d9d5fbb42ef3b802cb281c4c63c3f7929b227"),
    (19, "e5ed9bf5576ab862dc3d3ef158ca14842d443100bdb4f7985d4952e520f68e548f9102727b1b9b64c1f7c65279fa1c7ee81f14303da6e2296b0185a2c5cd4db0"),
    (19, "031ae366c1a7049f98710352bf58f507b188aa1afe369884bab8bf17d069ca010f4b9c59cd85facb3d20ad5b13413f6a93b4e6c69f810e422fb3a71788999ee6"),
    (19, "cd0d96056fbecb7686f120631e0fc7e15adce734a3aa22fbe015d4971f0adf2d5e253ab6ff893ab52231ad5e1024d949a86d67be1cc28b9f7a2de737d5fb47a7"),
    (19, "9aa47e93f12ef5b6a088af1a8a5dbe5e61a793cf55ad587c309d5420f299f4a80bff787ce0056234129e791cb595c07fc323d35ef3163fb48d9427bf643eb44d"),
    (20, "ef4f786af1a0667464a670c4e0a4b303a31ae1e6178d790e2de7021c728d823635135a15ab8dd1fe574b881ea83a966bf18514b995c58605a08b0cf9b952061e"),
    (20, "3b88c545ae0acc32f9d3866004226e3fedd701a1c424fe4ba3240d2724a5b99c69d94c19739c654a72ea2f0063dc87dc93d54c7e0c9c487cd9856864428494ac"),
    (20, "a014a4bdcf02647d1e2e5844a0a7e388b8bc81add0e25e839907e17972c5f64ea8a763cbe5814615ce26f94f7dbd934d866fdf9244c9b1ab95fabe00d6460d33"),
    (20, "527f6299ffc653c8caaaf04e218b3d99f0d39ef4967073ea5d26555fd91c838138906409a63873b439c5c97d457fc5426e23264fbd18f6ad119598457e95dc8e"),
    (20, "9738dad06e7f7bd6308ecb9246b6990fa973146dc6c81232e985ca0d9cbdd6f5069da397646de5c672e44957aef12da57bb11e702120d4cc31d693febbdb6094"),
    (20, "c8dc6939d610b2d923edf9c6de3f6e4ed72808bef17e3cde4216b4a55ceb9f1d46740ac4faac455e0ec6822d62725e239c4f25024fb92629f3b850db0ea2e59a"),
    (21, "c638dce6176b63879f5e8305655b904b95502bee3efb3dc0a7e41cbec95d0f4d820d6f4c7f9adc54ae1cf49478d846370ba6531c971764e4b301264dcd764550"),
    (21, "8c87fe365410a12dda7a01aa75252358bc6ba40d330c5d9a1eff5a44eb1b6755451baa2736557fbb38e87ed389965c672e8243411c6a07bd7b9046b1ab1ee7b5"),
    (21, "617f6780cc097cbea87c8baf9735d2555b57b7b5db5fc246bf7e6b6fb678a61cfe9e5276c6efbbb6bd1ef00025e9e94e84d3c266a99d140f7a3a8dbcd5addb2c"),
    (21, "a02e65be14ca8d9e7a831967b3b28084bc3a13f33b85b1b41b6ac7e349ed50f503b82054935318a94cddcd696d796b6cd2466a7549f8d5180ea9792194c8b8f4"),
    (21, "2ee02cec323df3138db649ade33b6431be45aaa5f03c6ea31b7e9db3a68b593d3909ad65cec14723d72fbe5620db82d581c0a8d078c4dcf599d161b36dad2ec8"),
    (21, "657f9b01e7088c601666cf518d493259303bd00ae0ea87d96e1bf9e59fd4d75eebae6a22eed8d8da457b143b5a481db7318f24c275d8028353a5825e533fdaef"),
    (22, "2e5f7b129c8413d2fa4a3e768b9e79ed42d1938be0def8d7badac2cfbf4351e52b00f8cca3c89787c53901f7c6980f834e50c8aad6667ed969d805e2b0d6fedc"),
    (22, "2c0c775992297e6e9c91f8e8377d95f14e1b0d5c9ff23fb1dcaa87fe5c292f707a6eaa6b44fdcc8816e5b301b58cd75161267b14d61fae61f3647d65b85d0fbe"),
    (22, "77c0c3df728ae5df485dde050ca847a38ed00138fa29a65a2e3c1dd8a4d068107baec55fcaa01ae5d1ba4553cb81249691dd49d1c2bdd4e162f4e7dd0eed0fff"),
    (22, "f65f136f7e6edbc49937b9cb862fef123c5beaef3e5468bdedf1b38724f47f944ed66966bf38d07b6d9502e1e4d04b42b722d7faa008a1ff32d97cc1883227f3"),
    (22, "cad88782a3c608661b9acfa62c01aa8202eb57b969793feb23e6c82aeb212364825b11f3abdb8270194d82e6c637673ed26321bbf58f8b6690017d00e9e71d7c"),
    (22, "069061b0c9ac3d8ad9505580afb1293854b0ea9a6bee6b7fb48dc5704613c112679929bc635c709e6edaa75156506535a4d0b049e0b6565b30cf6189d84b3fc2"),
    (23, "2e97d828fb5163c9d8745f988ab81c10286b990235744887771aec2ce69aa6ae5c9fafc6f7d9c3c242adf2ab714e0155e60e457c722011183e9a14e6f4a96ddf"),
    (23, "6a0a691064c6e0c261b7a095b4ef8996545faf87ed8a4376aea446a334cf767cb32467ad269c032da3cf58668b3becf020472ef008e77259894a6ae44966b0b1"),
    (23, "35c211afafd449735352fee180351db33bbff86ed625c03065804ebd26e7f9d9b8bbcac061e369235834907c793d83987d01a730d683908e8775a97f34273acf"),
    (23, "a5864171b6784091d6dda65e03d07963695012001fa1200492ad92dbb14a76d6056085e48b7ea7b3b3f5ce884a3606a6b5dc2d6af6bc736ae2f8821081c99a54"),
    (23, "743204f7f3837a29bd54ffea4814e2a5ca53fab75a6cc775cd8962014ba7846ba1ee8d3e9e579ed76ed6b65752d11f549e17513714c0726a4dcc5e958bf67add"),
    (23, "f1b14e2d08b570242ac16ad414c42a6222f6819f6900bfb1adf3659f717c701752df263d3ca3379dd0e0aa840bcb3fdd2c4cf8edccfc8a584cc61fdd4611e11e"),
    (24, "45ddb88235fc6327568bb752538f9b2f87b2030e80c2dc0dee8c85bf35020db74ed28081e46a549253b64f0e5ccf8c8ab434eed5c4058981883d8af79c3c6876"),
    (24, "0817d78260874c8f02bb640649855bdb6bfd7239ae2795bef897bb021ce4d82f1a11f676391c4ca45b1ac420dbc755b7c273d7665fbf908bef79cbffb008ae87"),
    (24, "b285ee41332badf616447f1bf77c51b86bb21bd83455882e87e7ca6d85098679a3502041fe0f3f4ff2750fab8ae024e09969ccbbafcc744af3a33bf2351efe0e"),
    (24, "636af0ecec2b62fc1459aa0400a2dc67bf6e46e2d84220c47f236d31593c2ce5d10eaf633312b705c70d2bd56e76c21a8e273e5a070c1c51e7e636b5238787bd"),
    (24, "35a80e827db103d0f5c986e9425e16718e3f96dd9a9ed583867052f930ada327b15a6b82659c88279502da55f61462060cba25ca475903c093fd70e48fe7592d"),
    (24, "ab19cabf41cb1a2ea9bde338e0a03f095fe79e8a220164cca7f653d0465567cbba5057af6a86fb3867021b92bd4d24f1d9a98ed99e8d489a41f56fbff32b8c5f"),
    (25, "023d313a73d42e8e5c02ea5362a8981e8699e89aa2dd90f9dee37e91e3d6e6a9ee3482d757051da578f458dbf40f47babd470c45a34a92dc4c91f30c41f3c388"),
    (25, "0079499426a67a726b800ef3b3b5d05c7a484c9d15d0a211432a856b63403e123d5bd92e2e83607a521e3a8116c7bb3c15ec596a3b5b0217f99a2c28008176d5"),
    (25, "b6bd3057c33589755322d4b03e7cc3f0cbcc7393af12a1474780c8f771e7ec3e6aa8042612e29e9ade779a3134bdfcc25954a7c657bddd2a0486ac3bbc34138b"),
    (25, "d8315c19e33c10d131f3cc15ffe285ee18fc28de5ad472f5dbacf3faac61e20018698c53ebe9d39ac7b08a4bfbe5a413e650ce1a894f060ec5fa4a52c54b0992"),
    (25, "21349a66873bb557240d179a728dfe81019e8a7afa86ec1148030be6fd56c4e7eb71ef0a713879ed3718d59d4219b63fd160f5106276bb81ff31cdebea86ee84"),
    (25, "4a84632440bb3afbee8802c3e4560d203555caa7065a7670fc03efefd5ea0c8cf84a043a97f014ec2ee8dd8251146aaa1d1c098f7846b13742a64a327e1c9d63"),
    (26, "e7d3ba06b3e859ea9f01b2d5a1f710b83d3ea786b05c1546f07460eaf0253fa0e1e9e325457dc6de61862824caeb3a22aeb28dc785011d9e6d2257d5f4babf67"),
    (26, "bc78e4b51c70bed1bfefa70f65fe7c49e29d9fe7849ad2a4c31b276832313fd112e32b37aeeeb7d3c656b6d62023a716eac01e0976b389fed16585415b695b9b"),
    (26, "4c2a798586cde42b99f82e4820f7f7ae24074a1724a7ae81e4a285afe95ad8dcae1ac97ea48436f16c6c22dea476691b1a8bdfd638c25ce1e019fe69056c8ced"),
    (26, "5fa93a23707b7508b95077f01ae29974866c423bb265311736fc744e726455e63da7d7eb053caa1b91606bd006464135a31e0b6753841997ab61f588062a4613"),
    (26, "a649c62ff70ff14a74121833bc7f1dc42c119ab5adff07bc6ded6a69c6d2e89085ac137224406649d01e508bc50b15ea196c583859dd341d21f5f7decaa622ff"),
    (26, "a1e05d426600e540353010572e11850e99fccd4208971ba32c954fae8456f1261058d725172dd401bafdec773b4e9250059b2b81e32f7b1541d635d9c67eada4"),
    (27, "15513ee09bc8b2d6591ffbb8c23bc00ef54361eaca03dae63b86ccc4437bfb3c9d37b882ca0edc81a94e4031a8263f5be8520c1226472adbac38c4a2cbc0b618"),
    (27, "4387bbab46791937a77fcfcb1d1a8fe4a480162ccab4e146414d493a5dbf71a928927c08a5b79f0a7b1cf70ff2aad9783713f80669e68b397e5b424664cd06bd"),
    (27, "366119e2b86f9be42e53b09a6a74a9cc23a9476f45519d2a1e7e1d98ffc641966dfa35c046736b84b3c82ca35db3e424c727251e4cfe0586c73c515e377779f7"),
    (27, "ec4ba5a9ec320836808169484b43df5989aea72ec7fff12bc9cabb96223b5502e6926e777e7dfa1af63a7103286db48a55034f9e0ba07afecc5bf9f4384d19b7"),
    (27, "e3c74c91b559da405e3127caf09474a325c085acb0d4416439fb37bee65da18390e4e853d03b28bf32c6e9e539c73c2e3ece1d35662fec2aaa27aa3d1cdbe077"),
    (27, "0227e21c057971c418d8f72132c2e37c85b04de4ddfe4971e38bf10feb498eeaac728cb4bfd2c76a7dba6249008fec455ac563793d6a9208202826ef58dfcac4"),
    (28, "4cfe90e39e1d3b275646db04ba45eea330673cdaf5f2dc38cc6bd59ed5f6e1d0b80733f8593528ccd6bb993c9f9206242e4a5856e8d04e9949a75bb072757f3f"),
    (28, "4d642e08f7242327ddbc6862707e73cd2438d526d75368d3d97123e19fcb549b86629be494cbb60c1c33c01947c3cd840667222480d6555b6beaaf115e0b5729"),
    (28, "6ba0edc98205367d0df68cbef881a0d9480f070def31a5800d625caeec19d836d2333c3330b4aeb8be19a17c48c264dd0b92e7c768228f5ffe56a281b6210702"),
    (28, "efd8e833530e370056ba5dc3a89fc2908964b2e74084bd08c84274843a71f8885e5bcd185620101607d48ddb609ef2b4432c4b6fe34d41653251e08fbf617a0c"),
    (28, "dba6e55cd74bfe64ada71b9c5c4249c8f914c98417a73a84aacd694c6c760f4ea6072465ed42c002a9b418d536389cab3fc422532fd57018636397892463c231"),
    (28, "63b224df1a8b6670938f7a424bdf3a49d1e0bc22245aa9d2a78c4ada7e5aaa8e6d6463d0558ebcd806d59f85489202482a6751af248cd04efe7ccb4dc6a608a7"),
    (29, "969ba6a6fc9ae3489a3fe3849f244c9b8e8228135dc9fa8ea1078506d393bc70ee362d0ee059766979c1542233c52585fb5859ae822c0317b24d032b74ef390f"),
    (29, "34d32f7d1a200cf0c3c1458aaf62abef2cdaf486723e0b40085154a37228383bb7bc3d6704eee4ab79883abc6e5046daf7805c09415f4bfb3e8f7c9fd5c3b069"),
    (29, "11e23a4308751419633e9d96fde0a293c8b9b1774b369d5e08c0c72f6a4f4cf7876bea9c6c4b26c0a285bec4ffd5777b261947a112e5c65119e39c8ffbbf9084"),
    (29, "5e5999c5a0bb759f45a1a357155152b94e39d8cb312868aff4edb9ecc6d24125fb20803c933000cef2e859e895c382a52b8d65d031a571a052ee2f578129292a"),
    (29, "20a3bfbb5ef4c422c7e291481704545e76ef93607f93da60f1554eacbe64af4f4d1bff6a73a93615ae4e780bcb67bc03613f0d4fe4f55ba45cad3cbaa75791c5"),
    (29, "a2b5e03ba4a6d2b6a28402bb6dd8bde695c98604caa1ad979ec6160979c2c8b8b08a5528574d94b78dc7d2820e3c91de990ca8fde2f937c11fc3c1725316219f"),
    (31, "d98434594270ed2dfc129136a100b2d31905a45929f50bdd9889eebade54c90760937be544fc8a14ff47db7385be9d83c57d0dd3d485adf5765aea351e54a572"),
    (31, "6c0dfbfa63cd4942f96611c64e101a3c758d35a31d35deea11c32841858f332bd00510a354e538483e8584f27de4bece83882672276fb4b39b6a4c8a51986fdd"),
    (31, "dde495eaa2548eb3dfe8210bc33fdde554b5f37dc2aac1b7c32d4987dab1faddf9954650a229b98e1cb0f85b6359d1e32a664562d2085c9c9cf28137324a8fc4"),
    (31, "bccf1117a62c3250ad23357fb9301ec671299e2a74d9434257634195ccb138fa67779374bce56bdea17e29fcbaf22a6abba9a1c44c35759dd8434682578271e4"),
    (31, "14f19eef9759b8aa5fb7d08cd8d4bbf6ddb662f50139523e1f2e5fd3281f85ccf010b57581c0cf7c8329d0708a3c5eb2c62b274dbfb1402d5481b5f8f842abc1"),
    (31, "145669f8065aa4bd3d8f16311226722e719796cd58e4e30312be02827df324517bfb55f7dbdd23e57aa86d937e8b047d9f800e63b644b1e4f66de0038004ff40"),
    (32, "2387b6a0beb94e7f9bee90b1d70f066709453a7dc5ac3271052cafd52f51b24a2ba848638de624bc44707d5d430030bd1b5e34c546525638f193850bd1927b30"),
    (32, "e9a516e45195c00d1fcee3e6fc4ecb40258a4c8e3b2d2c3815f544f2d83ce688efc26e28e36dffcd52865f41e13fa3116c0219806a3d0cf990dd4b43bcdf9466"),
    (32, "9844111cb3ac8be2647bb31f9a6d5aa8f23eddfcc627994dc549515301f4679a388fff2090fdd41b7eed9e808a459f209fc2713e1bee48ad100d2bded96cd853"),
    (32, "10ed7baa4795f51b4a4e4b63b31b822bf4676b4dd6c3fc8794dcc024593ab04b0defec60010370e74622810c6dea21789a5420cd464bb3ce01d44c142c2fe3ba"),
    (32, "dbc041cc3c2e228e014ed84b23e8f3b3b116669ae27c35643e5e1fdfe4675b3f70bf65f8785265ee8c141dc005dd90e79b3c273051cf0137883b7c1c5ca1cc7e"),
    (32, "fd444939f33caee724c77d842d4376acdff06564f4346cb60cbb019602eb3a0fbc1de9c12768d2deaaeecb479e3734b53dd31eb5eca6f689eb2a3ab490e4c4d9"),
    (33, "e3d15a68187a51475faab9a1095542647942b929c20b72c914a80c9eff98e622ff71dbd480f859bd39c5319505449e6a5bd011ad028d2b5dd314e1a4c9f5c494"),
    (33, "d91cc5b5f29ac98cf93a1f2f0795d7b909da35562c88657537a2e447386711bc0d1be6f9f69403fc9392aea1cbedaf90489108fda7888e7fee85be36975aaad0"),
    (33, "4ef1c27537e71cbb6b9bc847116b3967a637bd6b9a59f123ffe3d54297ed82ec392c24e1d842f7b9ec184d3859dd36c2668db7606c32a3ff040927a75103ad5f"),
    (33, "8545997a4a01dddee3063f591deafe93fb05e9800902971d286b05b0b7f0daa536e3ea676b2845e3b9902a2bed6ab96e71e750f2147aa7c22d4cbd6bf282c3c7"),
    (33, "005175918ec062af7f20406a6237ced051ebe7d5a398b67e7ca065865ee84aa69de9f4f5eebb86957d3d72395609e034dbd55e03616e41d5898ce939e2e9fbd9"),
    (33, "5d198c30653b5dc4e880eb4f955b8b612bca53351f7c56378592aa9a2f8897439413336ea9290a7fc523a801339e7ead93d606ffa9331b5395d53bdff1e86cd0"),
    (34, "e90d5f115a861a63c65431d6e9ecd14bb5b2f70f040559dcc6ed4cca4a295a877a7252f437a8beda401994616f1b6fac5ad1cb3c742975d745c1a1c697a5d96a"),
    (34, "6d9eed9345d791f42a7fc61d40967499961fe39c8851a3e49bf43e6418b269ed4bcbff5feac15c66dfa6819cd27ca652b07468cdc84bae630d382cbec7cf7504"),
    (34, "56f5a63604ae9e588e7706838c4748e80d5ea191d833d3c5b2f71939ab1a2985ff88a63712ee57c5d8c8740e4ecbfd7300e6487f80d6a1c73317549a54562003"),
    (34, "1b2f6623c76f419e051086d143f34aae8506593eb3f6e073fc6116994bf889ec04ed3823a03ccc941a2eb7000703e8fe1295edb234c1358569f057333c02d2d8"),
    (34, "7c19bcbe1261054250611eaf2135ed65ad3c8c4329587fdafebd1ffc71b2958b121261f855f7e4bd9c620d4ce533aa1b2e5142b1fcda67feb2f959e7533e8fc6"),
    (34, "f0a2006d49a813dca5516eb9df33edc38ca6fa6c09e95863474a89d114f97f7b3aec3ad3ddbf3c9868e14b1d4f27c6f63935ff423d5b743b73227fbe91f5dd3d"),
    (35, "0db16740ffac7d86d2d177ab20a57517796638368686a46ffbceed31a19f5d14f26b7a2f9e549536b7b33f321b54f5fcb3b5f76f226c9f9ab564245ca0fe921b"),
    (35, "787350f5e57fd3caa442b4ba8930288edf937c29537a2366a7071124cc36c0ab51e099a9b2a50e6e1b831f163eebf8c97ba498491887327cf8e4a35dfda03d0e"),
    (35, "271612fff144b2de1fe3749c682f155c118460a3df7e960ad78795411a88f9cd0d50182ffb2db4076b6fc20b2d44352f198e5846ca6b8311e814c94e53fc2aa8"),
    (35, "7c0ece1f87ec68a12791c762007d6762f0b5bd1b2bb7c3c3f38824af292b70c4625796c991ebbecd01937a96ff45273db4c6f7e80563517f44dfdcfab7c29ab9"),
    (35, "c298ded01c0bb94bed30a2befcbbde3c2943c5e609bd82a0e9d2fd8867eace91f029bbcc32b566926fa715b2e71785e31f12c98d09266f37d486148ef18ec200"),
    (35, "932566294a13ae8e1cbc1061163a57a8702a09d127c08c65699343ffa6c34bdcc46cbbf5d5f7a4bb1bb2ba8e9a999e0672edeb3d51ea444ef6ca0d92e66d6599"),
    (36, "f8f39f0029c35b3da0a637497497bcd009f28a0527c13e2846a2d0d3fe1fcab5b32910af0a1364fccb94f7d30835bc1e1868d1a2cfb9e93b5db948f74711b21b"),
    (36, "75206da926129b43120fe01a3da22f522f8760c4f86db48c80c11452a68ec01b795c595de6c994f28b852ea5453dafaa4731f1f0ad11042a49cc07629cd18a54"),
    (36, "c890203240c9f5c3e30fbbdf3fcf569e215666143ee1889e105c7afadb953f09a77aad73845d7491dc517279b423fcfd0485e4992b74a55135b31d9ed6c9c48c"),
    (36, "e6bd1c82c539e5aecd47a0b600d123f84e8f2a88fde43a3a21f02e647514a1919667f4b98eb4728c7b598da58128d92ca3bfcbe1571b16a9347f327b3fb63aab"),
    (36, "cdbdb80e310291308e5589d5c2ced1ec5b85697d1a6620954c593f96c781ef7566cbd3edf87b329ed01038130354a1e856c59c80da2c450e116db5715dcb51f7"),
    (36, "6b6c7f5e6e375f6e0c0bae279e8809dbc87aff0a9d2a5bfb42cdbdd739adcb47642a553531126e946574680c3afda990e7114d056c15a44bf4ece8f0543bc6d1"),
    (37, "3c9001d1adaecb79f2136dfbc007c9e13a3de925cf3b3c26b9b4f8c88c2cb7fe3abfc5eb13a28fd8d4ccceec07ee105c3cb1ad59923c11460c8922d513680d30"),
    (37, "84bb4057c89c6c4e2482b39abca23e76a74e56bbb9977e8db6f64f3ab3fcdced0c05e9b5dda59908d1e6b84c0bd252224f84d02127bdc1d2b25bbd8bd785808d"),
    (37, "eb5eb9289dc00c4031afdb0e708cf1c6092fdbd1cb2081f1bf89e37a5a0b4d3da6445a5bd11eec96d90003440b537ac06ab21b92ac984240adbcde39e9527713"),
    (37, "c60bed5fc0e28b64d0fa18c31413b87e01827727e7aec4874195e4ae27de1166da1e8cca206b7ae179bada0a24bb9519377be837f8bd190df01791d8d47daf51"),
    (37, "97b5138972ddf4362a3461e4ec24339411ffeef469b5d969f1dd77cc5d9f250f9b26833f921909c33447cbb7abb302aded094f4639d31269d27c1a59863c5e48"),
    (37, "d0d09446db3f3a4f09452d586988588aa25518f1b6735828c16492fe2b1ac46d5add2ab144c0a329a078a8d8a825236f2e3ec512d40915f253a3989c50c615b4"),
    (38, "54a6b154424b6284c8832bb1aa32248879e138d709fe0bcc5b138b33c85de888bf7fbcb2c5a51f0dfa5f502c3f7dbb9a80aed4ddd6cd747d6b09689557504955"),
    (38, "4252b5c5743b2bc91c978c2589df4630108bc363cd5b2fde8386d85abee0012ae9846ae7891e8b740905ad7a51d1c07532f64a9416c160d5f7ee14eab089dc68"),
    (38, "d7f8bedd209d24946b13346443113b28221e096fcc56ebf7b7b4acb230b38ce2d34b0ad225de2e769d649a2bcefaa9568a84bb825534252247ba05e0f952136b"),
    (38, "f8b6dea319a11948197bc1404fac3b4094b1ae61d88b1a0978a1aaaad9ca1bf71961b0463dd4ba089ddea9db9b3ff4521de871d734e63a7988add71054986388"),
    (38, "4976bb2da703a8d9b99f0bbbee5a34f08401dceea84acedf599d55aa7d8d13889aebeea34bc87bc2bf5d01b3713c0a5128cf8c54a9dccdbfc7dd38563594248c"),
    (38, "237b1e559c50b72c35f93880052d7d359c89e179850e29686bbe9255d547bc906ad8ebcbf933d3d7bf590d5639f79854a4807048814d340d7df15859de6b8ef7"),
    (39, "7cac4f55dc8fc6d859beefae544dcc4db064b9ab73bba9a78707db7ae5855e3e613f52b3f957c1e7fb865b518ddeadd597866e8a8fb76be4c62c66e4b075d07b"),
    (39, "b3be7afd9d936deb26407e48122635f2f0129cd7df53f607f88357f5b7adcffd30a437477e7cf752124d67565008cd9a186acb5438ea84c3147b1ab77a41b342"),
    (39, "a7fe9244af68d1393bc6982a61d5d6c84295504958b4b0bd5f7c786e306fc7e425199b70a6f088f6e1b487360d5b6e93b58261415aae2772f1ab10a564a03bf0"),
    (39, "08c4ad59618fb1afab09d8ad24d27518f82b56c0a454a922a2584b2e07f874eaab4b489d57a1b06769b0f03bb540314b4cb640b036c97144ecda5f48af1297ce"),
    (39, "80399964db520994e4e29d8aa38ea5d8b08ef783c3dcbc61dd60c0724a8f7834b6d92a38704b759f44fdf3a5da9001385b3a385b480ea71ab082b39518cfd1c4"),
    (39, "4d07cef9b1b0ee1420698a7424c5995e6001b527651de26595a9e421e59329b7b1a21d9b3afbcfde217464e22821723a598db0f4da9d03013e6115ded2403bf0"),
    (40, "570e17981aa349fb31773eb96b77c17ffd1f21a47a080c68e0dbd3cf5027ec25a5bc03dc66fb6f1f955058216655d1641ce39ad94538977e62a157cd87847c17"),
    (40, "925aa03be5f6bc48a484c326a2624ea9e1c04efe9aba0e9a9d87e2f983d277009b9f7bcbaf3bfd36811abbffe21bb8629de68c6a4046dd56297e457e094ce480"),
    (40, "28adb97510902ce606d207084d40d460bff988d4ea04e63caafa2fbd4ff1fa8671cc7d83b14698022a7656fbcbe8176a4e773f468ac0821814c8fccc4ffe6ada"),
    (40, "87fa460b68dc1b5be0c92e6278131fc276d1520020e62d2a1a74bc942fac834235293d2c5470f7c0b402335b3a2d35c3c95d03512cb2145bd15f2849fcca013e"),
    (40, "2c563dae5bc3d9fc7b8dc6b8d651b1cc4697f198b94fecb2e7e382c56b9b7f0945304b13b5b2ae294e9082dc9e28a17bf07dff39d5c7542d74c4544158743966"),
    (40, "95d5b305a522f2626dd3f7e9062f1a2e883ad24f221159810a1442d64205d1efe03e9d5d222c6cc33461eb33173b3b0c36ebc9a0805d7b0f9f318646579cde43"),
    (41, "ca5e2a0ae7e2739cf52a1cd4743e4e6f3ad6fd3f8528e6ab43458c05ef97cfc8eeaee6fe26771b3b7cbf5498d262df58de192bdacf012678b08b2426b892640d"),
    (41, "61d94231887a084966e120c435ed80da1be7aeccfd6cbbfd0a0fd0842f98f88167890ca5b4d4447185eb87272ea8b80e6851048ab76e9a32a03ae1d97efe7dcf"),
    (41, "7f33c5e278613bc2a9123c54d25da10b6f5d44a0aa7837f79e101613b281aff150466341cb639abfec00795ab04c68e0445c919ca20e8beff29b6b5be1eaf1e1"),
    (41, "e5b783822aaa89256c4778a9e9b411cc6fbc45694f125e472ee5bfebd2c05b94b3f6cb1175fc307c93fb7c21d44ef0d51af13255cb13dedccb91e84f861736d0"),
    (41, "7905dff48f550136a1a86ab19e74ca514e206a78daff60226f8c271ef7bb6ba9c34e6c15f68c3669e614267b1c8258f02c6baac9a78c950f92d058cf54b390f1"),
    (41, "fd1d1b7084a5aafbfe534bb688f39b336f22d9c3e045663f791031041e3e048219b88bf5feef2f56c6f309bec1dd15c414a244ebbbdcb7dca65f22102565b49d"),
    (42, "41f79e530c30fbf4a3db9812ce72eae068c8ccbe09735792a37f72b26cba3e2460a00cb2af958d7236284e37f405d9d70fe9478e38dbc658d686b3cd9e123bf4"),
    (42, "be3d2e7daa279f6930f39c6aa91b023e37053dbf5e48d955468c8e8b3db35c7665fea3ca9cf4706b02787e92106dfe08df118483848cf937075d92dff5e9afbd"),
    (42, "86aa9077bba994792bdfb36b54f6f45d1e0843da884fa03d236b6946b82a5d6a98501fd6e98d034158b5dd9735d975bcf51a2e11385f768764e0486a74e02954"),
    (42, "b35bf0f7fcea3fbd2c3744b9edfee69b1741904f17f0d27f114ef10411402bca73a72d725ed9a03e9dd9dfc885229ead11232fbbaec335ba113d4e6ea3f15fe5"),
    (42, "28cf40493d0ab4bda53ab7dd9c3ecf7661ba2859576c09867921676adbbd2b2c65f9da2d7a1b555ff11802c1374e51bf2bd4d06ea5acd572ea6f3ac46ef2444e"),
    (42, "78a76345f40f3464c51019ec7520a72e09c7cc335041f3c083877c0a44edb863b643af829cd1154f53e9b42c3fbb2c94b8f5155e6c8218cdf1118434babddb16"),
    (43, "85cb8bc8d3e9312e7309a6874296fd995f4f839e404c47782fdbd671406591bceca6866095ace8ab4917bba7b8b63507687a6e0b92c27965d06e03185ff62cf0"),
    (43, "e5cabf73cb61bb6992be3ec37b61e7a225786deb66197a3cbfb196f7f2a352610d449e86cb25a93cd03c0f15ed5840e080a7a9c6651faeada3d685d93ecf61c9"),
    (43, "9b2ee9a2bb30e9501d3baf3413280ada3eea40c045795e66066c976bd0f45c1f38a4fd9a4724176970717351d60cc5b491554db304d9f7891d7a416067548f3b"),
    (43, "d34e5dba74e2ffe157d9ad19a6b88c8037b919654cd5003d25dce18598e1848e9532be7c9b178d8196ab446d614980a2fae07503018d1f7c581f1a1230fe93c2"),
    (43, "8886493250afdb9680157c37bee2edf6a06c0d7e30053796ef7bd428480e34e1b414a585fa99a37e8220cc67b9ebf723cec45b0a543249c795ee49793022ee26"),
    (43, "106868177253de727910f3869e0ef243d86aa26ef118fcac8d997a4c62261fb122995c436eceac701006dc06c0011ca813e9c2f5c35b902805573647aa824b47"),
    (44, "b7ac6cb5caf4c2493680d2466b6b286144bd6d4b9194567d1bb0618278919bedaa7490e76e1d9f1b62c82cf6935d4b150f8c044004096df0cf9d037255f5a715"),
    (44, "e9208169a01812a86ad6efd0b22b56c044befb2adcb8ac97deaa07647034c70b3ab1e68ef2eb7f1a44d553fa6419c9479dfee19047a85856b1c0f20885568d9c"),
    (44, "12719b4e7e0760ef75fd90820926529517e02d38d1f7d3c4c3518f91fea21d6c6089dc1a65e316ff17d1629e2f5138ebcd7051fff88b9d4783f255bb04f4d959"),
    (44, "b6a9f93626f7c5fa15e3c731ba75fe60e2e2ab87b763c81a90465b98cb3b77f4d323e526e0aebf292f2e993dc91b467127ddf5c8f60090fd1604c5a7ccbc6a27"),
    (44, "b4992f2d2a9c0ff2e61d8235fae49c3a443d989bfcc18fe8254fcb1424f91b01d3b89a4adc9898912423f26ec104742b0de08543316a39a6f48e18aa02842ec2"),
    (44, "17e86fcea14ee1f84a1d6f6542c45e84ee87b3696606e318cb7fc5cb264797afbc718ec114de0d04a6b97764c67d522b27f1fc68fd53a3b9253f18329ed17d2e"),
    (45, "dacce6d0616e161ffe4fe0632c7f36dc24b9813e0315b5551142f40582ba2f3be561d9f2cef2983118dfd7043224ffd0b5154f82b1481293a9137a6386063b35"),
    (45, "11c2a3105d2fef028b2d26851ec3d0a6c5aeb0be318a88f962bf996137e45cff08632965947cb25e559948e7978a646fdb8b7ca8f05242ef6118a10386b60158"),
    (45, "4a7724b3afd5d656be1a8e71d78f502b891ce366abbe29be0d16c870f9f00601a51f511261f4f5115cb477af37cd315929b033412f5df9eef3132e54c325ac85"),
    (45, "137d72375343f5239ecc024dbb1e5d29f34df8f455162dd7f3103d46a2421d4b2423077bbfeed89f3581280f97fbafa1f89c05baf894e1c2f8c444429f57b907"),
    (45, "891bd8ec4030a46ed4835edd084254ac67d829a5f85ebde95bf6abb86bb1cd95ba614f5e5692d73f4a37dfdb6019831cd2e1da37ab160894ad8d9f7124d532d0"),
    (45, "a62f915a2608cde828b5c84dd862526ba3edcd62ff594e742472cc3dc1586dfce58cae9581998023d8311f31a9a9b800626fbe71154f6b993eb1976ad21d26e3"),
    (46, "e21266837e98bf7256eb09e17fcc7424fd2a3b1b417b62192ec1194b189aea3db530e9c7fd0057e46ab39ee4497187d385e55c7a36749037102aad9902896562"),
    (46, "9b56d22b663cc2bb0a36e4993d09fd4f70c1ebf2f8bf8518f5bb8ed11f097f5475b0c9d8e32f1858b37fc62ac9bb2d58035f48cba5a97cfb3015900cc3f5094f"),
    (46, "5358b5b2d417cc3112b2ec006c70877b07a391acc1c66959739f211df69f8a29ef51740d5c4c721204cc93bd99b1e82a72f0e3c7e3feba00f44580d98460502f"),
    (46, "2ad37bfbc6852ff430e42a3be852e1c490bc4368c37bfd9f452da160e59efb7388b17fe7253f8dcb92b2ba50e1f355c2a984cb8edfed5c2f99b015819a6af627"),
    (46, "61aae7c83c19603974b7dbebd20899e6315d6b4ddf6c5baae94c0918976833b3fc05b47b6b3ab0e313ed5810f5eb52a1ff263242424536bf6de118f013eeac12"),
    (46, "18ebd7c10d5c8f3882393a5c3c9c1be0768953a75030fd94c502892dd6c4bc87028e86ebac24a44ce5b568a296d279d0c5bbabd2350a7c7c097f32dcefdababd"),
    (47, "9adfe33b68a8cee67d3c36e6cb2d42aa68fc5731c3168d2d3c4fe23b9aa241854aa2f0996f03d33d23557353bcc1fffb73cf9a89ac5df598bc7d80b40431dfd9"),
    (47, "89d463bfac312004cf470332dca21687dd3be8be9ecbf3c29f838992f52addb5c961051ce3a7d809fb0350e105cd13e1b7b5cf47c167440119370b9bde35b67c"),
    (49, "56556f06ee54ffc61bea6d5e49c2a9f040a5cecee808783480e6190611cf66b5773f92bf29f5f0a581b03082cf800dc4ca9625992e9fcb8fc7707c7d6545153b"),
    (50, "f15df363e778f5420d6e21283258075b604aa804961ef2dbaa46d75a01002fe6c0dff6de48c872b64574f0e78445a6c3a8ed3d80e72a51b0751c3507938fb94b"),
];
