"""Space group reference data: number ranges of the 32 point groups in the order of the International Tables,
their Laue class, and a fingerprint of the operator set of each group and setting (rotation parts and
translations in 1/24, modulo lattice translations)."""
import hashlib

# (first space group, symbol, Laue number, crystal system number, order of the point group)
PG = [(1, "1", 1, 1, 1), (2, "-1", 1, 1, 2), (3, "2", 2, 2, 2), (6, "m", 2, 2, 2), (10, "2/m", 2, 2, 4), (16, "222", 3, 3, 4),
      (25, "mm2", 3, 3, 4), (47, "mmm", 3, 3, 8), (75, "4", 4, 4, 4), (81, "-4", 4, 4, 4), (83, "4/m", 4, 4, 8), (89, "422", 5, 4, 8),
      (99, "4mm", 5, 4, 8), (111, "-42m", 5, 4, 8), (123, "4/mmm", 5, 4, 16), (143, "3", 6, 5, 3), (147, "-3", 6, 5, 6),
      (149, "32", 7, 5, 6), (156, "3m", 7, 5, 6), (162, "-3m", 7, 5, 12), (168, "6", 8, 6, 6), (174, "-6", 8, 6, 6), (175, "6/m", 8, 6, 12),
      (177, "622", 9, 6, 12), (183, "6mm", 9, 6, 12), (187, "-6m2", 9, 6, 12), (191, "6/mmm", 9, 6, 24), (195, "23", 10, 7, 12),
      (200, "m-3", 10, 7, 24), (207, "432", 11, 7, 24), (215, "-43m", 11, 7, 24), (221, "m-3m", 11, 7, 48)]
# spelling used by the point group lookup
SPELL = {"1": "1", "-1": "1-", "2": "2", "m": "m", "2/m": "2/m", "222": "222", "mm2": "mm2", "mmm": "mmm", "4": "4", "-4": "4-", "4/m": "4/m",
         "422": "422", "4mm": "4mm", "-42m": "4-2m", "4/mmm": "4/mmm", "3": "3", "-3": "3-", "32": "32", "3m": "3m", "-3m": "3-m", "6": "6",
         "-6": "6-", "6/m": "6/m", "622": "622", "6mm": "6mm", "-6m2": "6-m2", "6/mmm": "6/mmm", "23": "23", "m-3": "m3-", "432": "432",
         "-43m": "4-3m", "m-3m": "m3-m"}
TWO = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228]


def pg(sg):
    """index (from 1) and row of the point group of a space group"""
    i = max(k for k, r in enumerate(PG) if r[0] <= sg)
    return i + 1, PG[i]


def fingerprint(keys):
    return hashlib.sha1(repr(sorted(keys)).encode()).hexdigest()[:10]


FP = {
    (1, 1): '04ec010122', (2, 1): '3d9445e5fb', (3, 1): '83ce63b217', (4, 1): '225209618a', (5, 1): '0e7d1359e6',
    (6, 1): '943b3192fb', (7, 1): '3703f2f49a', (8, 1): '44e4ee3f61', (9, 1): '0fa53be48c', (10, 1): 'b7e366aef2',
    (11, 1): '48270c854f', (12, 1): 'ddecde606e', (13, 1): 'ed240405b2', (14, 1): '5774048e30', (15, 1): '862c0152fc',
    (16, 1): '6fa6d250fa', (17, 1): '2a32f98685', (18, 1): 'f2a420c587', (19, 1): '29fce38452', (20, 1): '14aae4bb21',
    (21, 1): 'd57c289c8e', (22, 1): 'dcb311b53a', (23, 1): '5d3f70f7ec', (24, 1): '5d4b02f585', (25, 1): '6be5c00691',
    (26, 1): '1c8e25b971', (27, 1): 'd510b79a61', (28, 1): 'eb21beed31', (29, 1): '7bd7f7c8e3', (30, 1): 'b0daa320bd',
    (31, 1): 'fbebff1784', (32, 1): '4372b69e1d', (33, 1): 'e5bb026103', (34, 1): 'c79ccef4a3', (35, 1): '503d17ec2e',
    (36, 1): '79af0cb141', (37, 1): 'e2cbcfed1a', (38, 1): '9cf39a8a64', (39, 1): '0736160a5c', (40, 1): '82d1158a1b',
    (41, 1): '87fe9f80e9', (42, 1): 'f4f2ea3569', (43, 1): 'b9a3a61c69', (44, 1): 'ac33316c58', (45, 1): '9242a9d97f',
    (46, 1): '5cad2f537a', (47, 1): '9de3ee703a', (48, 1): 'db407f7049', (48, 2): 'a103632e63', (49, 1): 'dc1c615311',
    (50, 1): '24ad65fabf', (50, 2): '12edd09b00', (51, 1): 'bc4ed1b2e3', (52, 1): 'ad46e0097e', (53, 1): '897a35b489',
    (54, 1): '99e44cb066', (55, 1): '53cce352e8', (56, 1): 'ded5e1834a', (57, 1): '44a3fc924f', (58, 1): 'd5cfc0d2dc',
    (59, 1): 'cba1c76fb4', (59, 2): 'f0d753a016', (60, 1): '8768dfb627', (61, 1): 'ff7262d18f', (62, 1): 'fa96374c44',
    (63, 1): '4ee8a3888e', (64, 1): 'ccf89b9629', (65, 1): '863b9d20d1', (66, 1): '6be35575f5', (67, 1): '18a49f5041',
    (68, 1): '60420d0c75', (68, 2): '493e09b2eb', (69, 1): '60947925e5', (70, 1): '2b906f07a4', (70, 2): '3d1b0d4d22',
    (71, 1): 'f1ca0b9b95', (72, 1): '5452e9f8c3', (73, 1): 'b53357f3a8', (74, 1): '540fe0edf6', (75, 1): '42fb50b969',
    (76, 1): 'ed8fdd907e', (77, 1): 'b3c191847a', (78, 1): '93f757c43b', (79, 1): '1811e0818e', (80, 1): '0562aa6a74',
    (81, 1): '7a239cdce7', (82, 1): '21a10b331b', (83, 1): 'de17a001dd', (84, 1): 'd4343af23d', (85, 1): '1152501b29',
    (85, 2): '4498c6a64f', (86, 1): 'ee02035421', (86, 2): '1a0c3d1e04', (87, 1): '0edd7959fb', (88, 1): 'bbea52e289',
    (88, 2): '1091e6dc36', (89, 1): '105e6f866b', (90, 1): '1dbf5299e1', (91, 1): '9bf81ee725', (92, 1): '6787f4b7b3',
    (93, 1): '774b097ef1', (94, 1): 'a7b1ba19cc', (95, 1): 'fdc88945f4', (96, 1): '951e31a5c3', (97, 1): '3225777451',
    (98, 1): 'e02cd8bc48', (99, 1): 'e57c36483c', (100, 1): '1404bb9fe7', (101, 1): 'd4fda5aafd', (102, 1): '2ab4b7d65e',
    (103, 1): 'e06a1d6d1f', (104, 1): '77ec3014d7', (105, 1): '7969f01492', (106, 1): 'bd7bad6373', (107, 1): '1f293fd261',
    (108, 1): 'ade207b7e3', (109, 1): '2add8d5432', (110, 1): '5cd8c68b65', (111, 1): '474c00ca17', (112, 1): 'e1cf5ef464',
    (113, 1): 'a457e03eae', (114, 1): 'd8898b561e', (115, 1): 'dec2bbc0b4', (116, 1): 'f1f38f0c98', (117, 1): '5aba8834fa',
    (118, 1): '1838e5755f', (119, 1): '95a3c357a3', (120, 1): '8325af4621', (121, 1): 'dc13cefdc8', (122, 1): '9cf9f2b163',
    (123, 1): '9d4e1d8b22', (124, 1): '2234baac7f', (125, 1): 'c3d4eba824', (125, 2): '138089540a', (126, 1): 'e4fe10fb1b',
    (126, 2): 'e596f84f1f', (127, 1): '36f7d3da95', (128, 1): '94ab1ed68a', (129, 1): '77ab7171e5', (129, 2): 'f13a3c15c0',
    (130, 1): 'afcad43bb8', (130, 2): '19f063d697', (131, 1): '105dcc95e9', (132, 1): '37d08f402f', (133, 1): '3ca932ce43',
    (133, 2): '0d1b618f29', (134, 1): 'e63b60a733', (134, 2): '9e2af0b6aa', (135, 1): 'eb9701af6d', (136, 1): 'ebea5a0b25',
    (137, 1): 'fd84fe78cc', (137, 2): 'fee7528fda', (138, 1): 'f882689df2', (138, 2): 'e0b637b33b', (139, 1): 'dedded2f57',
    (140, 1): 'f21812ed4d', (141, 1): '508e57f844', (141, 2): 'fd30c7f186', (142, 1): 'c9ece8578e', (142, 2): '49dc050f02',
    (143, 1): '0934742d83', (144, 1): '114a20b525', (145, 1): 'e5a497b4bb', (146, 1): '404c2d2add', (147, 1): '367c4a74e9',
    (148, 1): '22ebef562f', (149, 1): '9ac447878a', (150, 1): '8b76aeb4cf', (151, 1): '1017fd1479', (152, 1): '43e4bbf6a8',
    (153, 1): '32cdd66ccb', (154, 1): 'a508ece920', (155, 1): 'dc842336be', (156, 1): '95996b652d', (157, 1): '7c5f6dda8d',
    (158, 1): '216523fb06', (159, 1): 'c3898dc889', (160, 1): '2d1805db39', (161, 1): '96ec2bc35e', (162, 1): '08e206ea97',
    (163, 1): '458d914a19', (164, 1): '95a02f0d25', (165, 1): '11c10f9b6d', (166, 1): 'f63a1e4f44', (167, 1): '7e8f2bb32b',
    (168, 1): '4acb398dff', (169, 1): '738220e8dc', (170, 1): 'a37d51d331', (171, 1): 'ad6305fa4f', (172, 1): 'bb486be5b0',
    (173, 1): '19e2aa6812', (174, 1): 'cda620a41d', (175, 1): 'b0ae13cd42', (176, 1): '78c1c199d7', (177, 1): '862c9fbfd7',
    (178, 1): 'cac68a063c', (179, 1): '8dedd85164', (180, 1): '6eee4f03ab', (181, 1): 'c5c2723eac', (182, 1): '00d77fc522',
    (183, 1): 'f2be750987', (184, 1): '6c71dd4a16', (185, 1): '9a243cd4a7', (186, 1): 'c8d702a459', (187, 1): '4393751c12',
    (188, 1): 'e47f176104', (189, 1): '734fd0ac1f', (190, 1): 'c386c96a55', (191, 1): 'b08ef38cdb', (192, 1): '145672cd53',
    (193, 1): '1a03f84956', (194, 1): '444cf627f4', (195, 1): 'a733272550', (196, 1): '636a73965e', (197, 1): 'c1795378e1',
    (198, 1): '7b8081e271', (199, 1): 'a4e050d372', (200, 1): '36b7d0c3ed', (201, 1): 'a70f087b67', (201, 2): '80732b4fd4',
    (202, 1): '1515719410', (203, 1): 'ef76bd5022', (203, 2): '550d8f0db2', (204, 1): 'c846843f6e', (205, 1): 'aa2362ebdd',
    (206, 1): 'd596f2eabf', (207, 1): 'b546514e9a', (208, 1): 'f11a7f8a67', (209, 1): 'cdfaeba99d', (210, 1): '87137f02f6',
    (211, 1): '1e8c36d711', (212, 1): '81f56f9709', (213, 1): 'b2cd59d69f', (214, 1): '893e747d5c', (215, 1): 'c17fbb39c3',
    (216, 1): 'c326ed3d6c', (217, 1): '7dd20c8732', (218, 1): '648fc90c6a', (219, 1): 'b72e37fde4', (220, 1): 'b1914c22c4',
    (221, 1): '91e3e2c4f9', (222, 1): '2ab261dbc3', (222, 2): 'a3280fa45c', (223, 1): 'e3b1f95c63', (224, 1): 'd1611ee6ad',
    (224, 2): 'b0288e92f2', (225, 1): '07db0ac068', (226, 1): 'ca5f810f14', (227, 1): '6ea113676a', (227, 2): '6b81e743d9',
    (228, 1): '08a0bfecd9', (228, 2): '934cfe705a', (229, 1): '48c6df39dd', (230, 1): '8a34481b3d',
}
