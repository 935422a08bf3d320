[
("sha224", 536870912, "51c5558279b342c054a1cca5b5d026fd5c504999cfa4d4a7dea3f474"),
("sha224", 536870913, "ee98422b717357c0befd88fe5ea456a333238038c756f695465275c3"),
("sha224", 4294967366, "f14e8bb00b27c17bf6eb0b941c002c4446ce45e4b032dd368449b910"),
("sha256", 536870912, "9acca8e8c22201155389f65abbf6bc9723edc7384ead80503839f49dcc56d767"),
("sha256", 536870913, "7c40fe5ce847740d0f0d0cdde3949d6585804cdec3ae61a15b923165699c8137"),
("sha256", 4294967366, "e58b8048f80f23db22ea2cf6c82f3ce133d89af1a67a938cd4933b50e8b41035"),
("sha384", 536870912, "4b631514998787c0a4b9ab56756f6a0ac1dc465b8c80da143a9bbb4981fb72ca2799e57788d6b274930ae5332e4fe53f"),
("sha384", 536870913, "243996d96817743f535a722ace62a692ec4324569ef92a7909cddf2be6a16790308955e24500796b7036ef702c81d021"),
("sha384", 4294967366, "514c3aab1e2e9d93073b791d8e0f0db081dfbedb0675557c3166c631fc66d956ace6558870e60cae1ee53459cb77e105"),
("sha512", 536870912, "df68d060d2adafc2c4794407118f8116d000715233b2550302115556380d1d5b018ebce1c7fa412a8bc5e01e097b33db64d1e9117b3f7bdd8925f09b6594590a"),
("sha512", 536870913, "8165468866efe161e7d5394bcb5a72bb5dd30e8584ce00a5f87a89c861464ae5ee9bfbbe542d3a80f86f83f2ebeaf2757beffc96e4c0431395bd94284f3c766e"),
("sha512", 4294967366, "89b82f12a29ebd50206b53254c2715f734febeac28b8b158803faa92d19ca86f578fa8101db151d78a75d1a2a6f83af6eb73a1283486775d47aad2815b83c101"),
]
