VC_LIT(1)
VC_LIT(2)
VC_LIT(3)
VC_LIT(4)
VC_LIT(5)
VC_LIT(6)
VC_LIT(7)
VC_LIT(8)
VC_LIT(9)
VC_LIT(10)
VC_LIT(11)
VC_LIT(12)
VC_LIT(13)
VC_LIT(14)
VC_LIT(15)
VC_LIT(16)
VC_LIT(17)
VC_LIT(18)
VC_LIT(19)
VC_LIT(20)
VC_LIT(21)
VC_LIT(22)
VC_LIT(23)
VC_LIT(24)
VC_LIT(25)
VC_LIT(26)
VC_LIT(27)
VC_LIT(28)
VC_LIT(29)
VC_LIT(30)
VC_LIT(31)
VC_LIT(32)
VC_LIT(33)
VC_LIT(34)
VC_LIT(35)
VC_LIT(36)
VC_LIT(37)
VC_LIT(38)
VC_LIT(39)
VC_LIT(40)
VC_LIT(41)
VC_LIT(42)
VC_LIT(43)
VC_LIT(44)
VC_LIT(45)
VC_LIT(46)
VC_LIT(47)
VC_LIT(48)
VC_LIT(49)
VC_LIT(50)
VC_LIT(51)
VC_LIT(52)
VC_LIT(53)
VC_LIT(54)
VC_LIT(55)
VC_LIT(56)
VC_LIT(57)
VC_LIT(58)
VC_LIT(59)
VC_LIT(60)
VC_LIT(61)
VC_LIT(62)
VC_LIT(63)
VC_LIT(64)
VC_LIT(65)
VC_LIT(66)
VC_LIT(67)
VC_LIT(68)
VC_LIT(69)
VC_LIT(70)
VC_LIT(71)
VC_LIT(72)
VC_LIT(73)
VC_LIT(74)
VC_LIT(75)
VC_LIT(76)
VC_LIT(77)
VC_LIT(78)
VC_LIT(79)
VC_LIT(80)
VC_LIT(81)
VC_LIT(82)
VC_LIT(83)
VC_LIT(84)
VC_LIT(85)
VC_LIT(86)
VC_LIT(87)
VC_LIT(88)
VC_LIT(89)
VC_LIT(90)
VC_LIT(91)
VC_LIT(92)
VC_LIT(93)
VC_LIT(94)
VC_LIT(95)
VC_LIT(96)
VC_LIT(97)
VC_LIT(98)
VC_LIT(99)
VC_LIT(100)
VC_LIT(101)
VC_LIT(102)
VC_LIT(103)
VC_LIT(104)
VC_LIT(105)
VC_LIT(106)
VC_LIT(107)
VC_LIT(108)
VC_LIT(109)
VC_LIT(110)
VC_LIT(111)
VC_LIT(112)
VC_LIT(113)
VC_LIT(114)
VC_LIT(115)
VC_LIT(116)
VC_LIT(117)
VC_LIT(118)
VC_LIT(119)
VC_LIT(120)
VC_LIT(121)
VC_LIT(122)
VC_LIT(123)
VC_LIT(124)
VC_LIT(125)
VC_LIT(126)
VC_LIT(127)
VC_LIT(128)
VC_LIT(129)
VC_LIT(130)
VC_LIT(131)
VC_LIT(132)
VC_LIT(133)
VC_LIT(134)
VC_LIT(135)
VC_LIT(136)
VC_LIT(137)
VC_LIT(138)
VC_LIT(139)
VC_LIT(140)
VC_LIT(141)
VC_LIT(142)
VC_LIT(143)
VC_LIT(144)
VC_LIT(145)
VC_LIT(146)
VC_LIT(147)
VC_LIT(148)
VC_LIT(149)
VC_LIT(150)
VC_LIT(151)
VC_LIT(152)
VC_LIT(153)
VC_LIT(154)
VC_LIT(155)
VC_LIT(156)
VC_LIT(157)
VC_LIT(158)
VC_LIT(159)
VC_LIT(160)
VC_LIT(161)
VC_LIT(162)
VC_LIT(163)
VC_LIT(164)
VC_LIT(165)
VC_LIT(166)
VC_LIT(167)
VC_LIT(168)
VC_LIT(169)
VC_LIT(170)
VC_LIT(171)
VC_LIT(172)
VC_LIT(173)
VC_LIT(174)
VC_LIT(175)
VC_LIT(176)
VC_LIT(177)
VC_LIT(178)
VC_LIT(179)
VC_LIT(180)
VC_LIT(181)
VC_LIT(182)
VC_LIT(183)
VC_LIT(184)
VC_LIT(185)
VC_LIT(186)
VC_LIT(187)
VC_LIT(188)
VC_LIT(189)
VC_LIT(190)
VC_LIT(191)
VC_LIT(192)
VC_LIT(193)
VC_LIT(194)
VC_LIT(195)
VC_LIT(196)
VC_LIT(197)
VC_LIT(198)
VC_LIT(199)
VC_LIT(200)
VC_LIT(201)
VC_LIT(202)
VC_LIT(203)
VC_LIT(204)
VC_LIT(205)
VC_LIT(206)
VC_LIT(207)
VC_LIT(208)
VC_LIT(209)
VC_LIT(210)
VC_LIT(211)
VC_LIT(212)
VC_LIT(213)
VC_LIT(214)
VC_LIT(215)
VC_LIT(216)
VC_LIT(217)
VC_LIT(218)
VC_LIT(219)
VC_LIT(220)
VC_LIT(221)
VC_LIT(222)
VC_LIT(223)
VC_LIT(224)
VC_LIT(225)
VC_LIT(226)
VC_LIT(227)
VC_LIT(228)
VC_LIT(229)
VC_LIT(230)
VC_LIT(231)
VC_LIT(232)
VC_LIT(233)
VC_LIT(234)
VC_LIT(235)
VC_LIT(236)
VC_LIT(237)
VC_LIT(238)
VC_LIT(239)
VC_LIT(240)
VC_LIT(241)
VC_LIT(242)
VC_LIT(243)
VC_LIT(244)
VC_LIT(245)
VC_LIT(246)
VC_LIT(247)
VC_LIT(248)
VC_LIT(249)
VC_LIT(250)
VC_LIT(251)
VC_LIT(252)
VC_LIT(253)
VC_LIT(254)
VC_LIT(255)
VC_LIT(256)
VC_LIT(257)
VC_LIT(258)
VC_LIT(259)
VC_LIT(260)
VC_LIT(261)
VC_LIT(262)
VC_LIT(263)
VC_LIT(264)
VC_LIT(265)
VC_LIT(266)
VC_LIT(267)
VC_LIT(268)
VC_LIT(269)
VC_LIT(270)
VC_LIT(271)
VC_LIT(272)
VC_LIT(273)
VC_LIT(274)
VC_LIT(275)
VC_LIT(276)
VC_LIT(277)
VC_LIT(278)
VC_LIT(279)
VC_LIT(280)
VC_LIT(281)
VC_LIT(282)
VC_LIT(283)
VC_LIT(284)
VC_LIT(285)
VC_LIT(286)
VC_LIT(287)
VC_LIT(288)
VC_LIT(289)
VC_LIT(290)
VC_LIT(291)
VC_LIT(292)
VC_LIT(293)
VC_LIT(294)
VC_LIT(295)
VC_LIT(296)
VC_LIT(297)
VC_LIT(298)
VC_LIT(299)
VC_LIT(300)
VC_LIT(301)
VC_LIT(302)
VC_LIT(303)
VC_LIT(304)
VC_LIT(305)
VC_LIT(306)
VC_LIT(307)
VC_LIT(308)
VC_LIT(309)
VC_LIT(310)
VC_LIT(311)
VC_LIT(312)
VC_LIT(313)
VC_LIT(314)
VC_LIT(315)
VC_LIT(316)
VC_LIT(317)
VC_LIT(318)
VC_LIT(319)
VC_LIT(320)
VC_LIT(321)
VC_LIT(322)
VC_LIT(323)
VC_LIT(324)
VC_LIT(325)
VC_LIT(326)
VC_LIT(327)
VC_LIT(328)
VC_LIT(329)
VC_LIT(330)
VC_LIT(331)
VC_LIT(332)
VC_LIT(333)
VC_LIT(334)
VC_LIT(335)
VC_LIT(336)
VC_LIT(337)
VC_LIT(338)
VC_LIT(339)
VC_LIT(340)
VC_LIT(341)
VC_LIT(342)
VC_LIT(343)
VC_LIT(344)
VC_LIT(345)
VC_LIT(346)
VC_LIT(347)
VC_LIT(348)
VC_LIT(349)
VC_LIT(350)
VC_LIT(351)
VC_LIT(352)
VC_LIT(353)
VC_LIT(354)
VC_LIT(355)
VC_LIT(356)
VC_LIT(357)
VC_LIT(358)
VC_LIT(359)
VC_LIT(360)
VC_LIT(361)
VC_LIT(362)
VC_LIT(363)
VC_LIT(364)
VC_LIT(365)
VC_LIT(366)
VC_LIT(367)
VC_LIT(368)
VC_LIT(369)
VC_LIT(370)
VC_LIT(371)
VC_LIT(372)
VC_LIT(373)
VC_LIT(374)
VC_LIT(375)
VC_LIT(376)
VC_LIT(377)
VC_LIT(378)
VC_LIT(379)
VC_LIT(380)
VC_LIT(381)
VC_LIT(382)
VC_LIT(383)
VC_LIT(384)
VC_LIT(385)
VC_LIT(386)
VC_LIT(387)
VC_LIT(388)
VC_LIT(389)
VC_LIT(390)
VC_LIT(391)
VC_LIT(392)
VC_LIT(393)
VC_LIT(394)
VC_LIT(395)
VC_LIT(396)
VC_LIT(397)
VC_LIT(398)
VC_LIT(399)
VC_LIT(400)
VC_LIT(401)
VC_LIT(402)
VC_LIT(403)
VC_LIT(404)
VC_LIT(405)
VC_LIT(406)
VC_LIT(407)
VC_LIT(408)
VC_LIT(409)
VC_LIT(410)
VC_LIT(411)
VC_LIT(412)
VC_LIT(413)
VC_LIT(414)
VC_LIT(415)
VC_LIT(416)
VC_LIT(417)
VC_LIT(418)
VC_LIT(419)
VC_LIT(420)
VC_LIT(421)
VC_LIT(422)
VC_LIT(423)
VC_LIT(424)
VC_LIT(425)
VC_LIT(426)
VC_LIT(427)
VC_LIT(428)
VC_LIT(429)
VC_LIT(430)
VC_LIT(431)
VC_LIT(432)
VC_LIT(433)
VC_LIT(434)
VC_LIT(435)
VC_LIT(436)
VC_LIT(437)
VC_LIT(438)
VC_LIT(439)
VC_LIT(440)
VC_LIT(441)
VC_LIT(442)
VC_LIT(443)
VC_LIT(444)
VC_LIT(445)
VC_LIT(446)
VC_LIT(447)
VC_LIT(448)
VC_LIT(449)
VC_LIT(450)
VC_LIT(451)
VC_LIT(452)
VC_LIT(453)
VC_LIT(454)
VC_LIT(455)
VC_LIT(456)
VC_LIT(457)
VC_LIT(458)
VC_LIT(459)
VC_LIT(460)
VC_LIT(461)
VC_LIT(462)
VC_LIT(463)
VC_LIT(464)
VC_LIT(465)
VC_LIT(466)
VC_LIT(467)
VC_LIT(468)
VC_LIT(469)
VC_LIT(470)
VC_LIT(471)
VC_LIT(472)
VC_LIT(473)
VC_LIT(474)
VC_LIT(475)
VC_LIT(476)
VC_LIT(477)
VC_LIT(478)
VC_LIT(479)
VC_LIT(480)
VC_LIT(481)
VC_LIT(482)
VC_LIT(483)
VC_LIT(484)
VC_LIT(485)
VC_LIT(486)
VC_LIT(487)
VC_LIT(488)
VC_LIT(489)
VC_LIT(490)
VC_LIT(491)
VC_LIT(492)
VC_LIT(493)
VC_LIT(494)
VC_LIT(495)
VC_LIT(496)
VC_LIT(497)
VC_LIT(498)
VC_LIT(499)
VC_LIT(500)
VC_LIT(501)
VC_LIT(502)
VC_LIT(503)
VC_LIT(504)
VC_LIT(505)
VC_LIT(506)
VC_LIT(507)
VC_LIT(508)
VC_LIT(509)
VC_LIT(510)
VC_LIT(511)
VC_LIT(512)
VC_LIT(513)
VC_LIT(514)
VC_LIT(515)
VC_LIT(516)
VC_LIT(517)
VC_LIT(518)
VC_LIT(519)
VC_LIT(520)
VC_LIT(521)
VC_LIT(522)
VC_LIT(523)
VC_LIT(524)
VC_LIT(525)
VC_LIT(526)
VC_LIT(527)
VC_LIT(528)
VC_LIT(529)
VC_LIT(530)
VC_LIT(531)
VC_LIT(532)
VC_LIT(533)
VC_LIT(534)
VC_LIT(535)
VC_LIT(536)
VC_LIT(537)
VC_LIT(538)
VC_LIT(539)
VC_LIT(540)
VC_LIT(541)
VC_LIT(542)
VC_LIT(543)
VC_LIT(544)
VC_LIT(545)
VC_LIT(546)
VC_LIT(547)
VC_LIT(548)
VC_LIT(549)
VC_LIT(550)
VC_LIT(551)
VC_LIT(552)
VC_LIT(553)
VC_LIT(554)
VC_LIT(555)
VC_LIT(556)
VC_LIT(557)
VC_LIT(558)
VC_LIT(559)
VC_LIT(560)
VC_LIT(561)
VC_LIT(562)
VC_LIT(563)
VC_LIT(564)
VC_LIT(565)
VC_LIT(566)
VC_LIT(567)
VC_LIT(568)
VC_LIT(569)
VC_LIT(570)
VC_LIT(571)
VC_LIT(572)
VC_LIT(573)
VC_LIT(574)
VC_LIT(575)
VC_LIT(576)
VC_LIT(577)
VC_LIT(578)
VC_LIT(579)
VC_LIT(580)
VC_LIT(581)
VC_LIT(582)
VC_LIT(583)
VC_LIT(584)
VC_LIT(585)
VC_LIT(586)
VC_LIT(587)
VC_LIT(588)
VC_LIT(589)
VC_LIT(590)
VC_LIT(591)
VC_LIT(592)
VC_LIT(593)
VC_LIT(594)
VC_LIT(595)
VC_LIT(596)
VC_LIT(597)
VC_LIT(598)
VC_LIT(599)
VC_LIT(600)
VC_LIT(601)
VC_LIT(602)
VC_LIT(603)
VC_LIT(604)
VC_LIT(605)
VC_LIT(606)
VC_LIT(607)
VC_LIT(608)
VC_LIT(609)
VC_LIT(610)
VC_LIT(611)
VC_LIT(612)
VC_LIT(613)
VC_LIT(614)
VC_LIT(615)
VC_LIT(616)
VC_LIT(617)
VC_LIT(618)
VC_LIT(619)
VC_LIT(620)
VC_LIT(621)
VC_LIT(622)
VC_LIT(623)
VC_LIT(624)
VC_LIT(625)
VC_LIT(626)
VC_LIT(627)
VC_LIT(628)
VC_LIT(629)
VC_LIT(630)
VC_LIT(631)
VC_LIT(632)
VC_LIT(633)
VC_LIT(634)
VC_LIT(635)
VC_LIT(636)
VC_LIT(637)
VC_LIT(638)
VC_LIT(639)
VC_LIT(640)
VC_LIT(641)
VC_LIT(642)
VC_LIT(643)
VC_LIT(644)
VC_LIT(645)
VC_LIT(646)
VC_LIT(647)
VC_LIT(648)
VC_LIT(649)
VC_LIT(650)
VC_LIT(651)
VC_LIT(652)
VC_LIT(653)
VC_LIT(654)
VC_LIT(655)
VC_LIT(656)
VC_LIT(657)
VC_LIT(658)
VC_LIT(659)
VC_LIT(660)
VC_LIT(661)
VC_LIT(662)
VC_LIT(663)
VC_LIT(664)
VC_LIT(665)
VC_LIT(666)
VC_LIT(667)
VC_LIT(668)
VC_LIT(669)
VC_LIT(670)
VC_LIT(671)
VC_LIT(672)
VC_LIT(673)
VC_LIT(674)
VC_LIT(675)
VC_LIT(676)
VC_LIT(677)
VC_LIT(678)
VC_LIT(679)
VC_LIT(680)
VC_LIT(681)
VC_LIT(682)
VC_LIT(683)
VC_LIT(684)
VC_LIT(685)
VC_LIT(686)
VC_LIT(687)
VC_LIT(688)
VC_LIT(689)
VC_LIT(690)
VC_LIT(691)
VC_LIT(692)
VC_LIT(693)
VC_LIT(694)
VC_LIT(695)
VC_LIT(696)
VC_LIT(697)
VC_LIT(698)
VC_LIT(699)
VC_LIT(700)
VC_LIT(701)
VC_LIT(702)
VC_LIT(703)
VC_LIT(704)
VC_LIT(705)
VC_LIT(706)
VC_LIT(707)
VC_LIT(708)
VC_LIT(709)
VC_LIT(710)
VC_LIT(711)
VC_LIT(712)
VC_LIT(713)
VC_LIT(714)
VC_LIT(715)
VC_LIT(716)
VC_LIT(717)
VC_LIT(718)
VC_LIT(719)
VC_LIT(720)
VC_LIT(721)
VC_LIT(722)
VC_LIT(723)
VC_LIT(724)
VC_LIT(725)
VC_LIT(726)
VC_LIT(727)
VC_LIT(728)
VC_LIT(729)
VC_LIT(730)
VC_LIT(731)
VC_LIT(732)
VC_LIT(733)
VC_LIT(734)
VC_LIT(735)
VC_LIT(736)
VC_LIT(737)
VC_LIT(738)
VC_LIT(739)
VC_LIT(740)
VC_LIT(741)
VC_LIT(742)
VC_LIT(743)
VC_LIT(744)
VC_LIT(745)
VC_LIT(746)
VC_LIT(747)
VC_LIT(748)
VC_LIT(749)
VC_LIT(750)
VC_LIT(751)
VC_LIT(752)
VC_LIT(753)
VC_LIT(754)
VC_LIT(755)
VC_LIT(756)
VC_LIT(757)
VC_LIT(758)
VC_LIT(759)
VC_LIT(760)
VC_LIT(761)
VC_LIT(762)
VC_LIT(763)
VC_LIT(764)
VC_LIT(765)
VC_LIT(766)
VC_LIT(767)
VC_LIT(768)
VC_LIT(769)
VC_LIT(770)
VC_LIT(771)
VC_LIT(772)
VC_LIT(773)
VC_LIT(774)
VC_LIT(775)
VC_LIT(776)
VC_LIT(777)
VC_LIT(778)
VC_LIT(779)
VC_LIT(780)
VC_LIT(781)
VC_LIT(782)
VC_LIT(783)
VC_LIT(784)
VC_LIT(785)
VC_LIT(786)
VC_LIT(787)
VC_LIT(788)
VC_LIT(789)
VC_LIT(790)
VC_LIT(791)
VC_LIT(792)
VC_LIT(793)
VC_LIT(794)
VC_LIT(795)
VC_LIT(796)
VC_LIT(797)
VC_LIT(798)
VC_LIT(799)
VC_LIT(800)
VC_LIT(801)
VC_LIT(802)
VC_LIT(803)
VC_LIT(804)
VC_LIT(805)
VC_LIT(806)
VC_LIT(807)
VC_LIT(808)
VC_LIT(809)
VC_LIT(810)
VC_LIT(811)
VC_LIT(812)
VC_LIT(813)
VC_LIT(814)
VC_LIT(815)
VC_LIT(816)
VC_LIT(817)
VC_LIT(818)
VC_LIT(819)
VC_LIT(820)
VC_LIT(821)
VC_LIT(822)
VC_LIT(823)
VC_LIT(824)
VC_LIT(825)
VC_LIT(826)
VC_LIT(827)
VC_LIT(828)
VC_LIT(829)
VC_LIT(830)
VC_LIT(831)
VC_LIT(832)
VC_LIT(833)
VC_LIT(834)
VC_LIT(835)
VC_LIT(836)
VC_LIT(837)
VC_LIT(838)
VC_LIT(839)
VC_LIT(840)
VC_LIT(841)
VC_LIT(842)
VC_LIT(843)
VC_LIT(844)
VC_LIT(845)
VC_LIT(846)
VC_LIT(847)
VC_LIT(848)
VC_LIT(849)
VC_LIT(850)
VC_LIT(851)
VC_LIT(852)
VC_LIT(853)
VC_LIT(854)
VC_LIT(855)
VC_LIT(856)
VC_LIT(857)
VC_LIT(858)
VC_LIT(859)
VC_LIT(860)
VC_LIT(861)
VC_LIT(862)
VC_LIT(863)
VC_LIT(864)
VC_LIT(865)
VC_LIT(866)
VC_LIT(867)
VC_LIT(868)
VC_LIT(869)
VC_LIT(870)
VC_LIT(871)
VC_LIT(872)
VC_LIT(873)
VC_LIT(874)
VC_LIT(875)
VC_LIT(876)
VC_LIT(877)
VC_LIT(878)
VC_LIT(879)
VC_LIT(880)
VC_LIT(881)
VC_LIT(882)
VC_LIT(883)
VC_LIT(884)
VC_LIT(885)
VC_LIT(886)
VC_LIT(887)
VC_LIT(888)
VC_LIT(889)
VC_LIT(890)
VC_LIT(891)
VC_LIT(892)
VC_LIT(893)
VC_LIT(894)
VC_LIT(895)
VC_LIT(896)
VC_LIT(897)
VC_LIT(898)
VC_LIT(899)
VC_LIT(900)
VC_LIT(901)
VC_LIT(902)
VC_LIT(903)
VC_LIT(904)
VC_LIT(905)
VC_LIT(906)
VC_LIT(907)
VC_LIT(908)
VC_LIT(909)
VC_LIT(910)
VC_LIT(911)
VC_LIT(912)
VC_LIT(913)
VC_LIT(914)
VC_LIT(915)
VC_LIT(916)
VC_LIT(917)
VC_LIT(918)
VC_LIT(919)
VC_LIT(920)
VC_LIT(921)
VC_LIT(922)
VC_LIT(923)
VC_LIT(924)
VC_LIT(925)
VC_LIT(926)
VC_LIT(927)
VC_LIT(928)
VC_LIT(929)
VC_LIT(930)
VC_LIT(931)
VC_LIT(932)
VC_LIT(933)
VC_LIT(934)
VC_LIT(935)
VC_LIT(936)
VC_LIT(937)
VC_LIT(938)
VC_LIT(939)
VC_LIT(940)
VC_LIT(941)
VC_LIT(942)
VC_LIT(943)
VC_LIT(944)
VC_LIT(945)
VC_LIT(946)
VC_LIT(947)
VC_LIT(948)
VC_LIT(949)
VC_LIT(950)
VC_LIT(951)
VC_LIT(952)
VC_LIT(953)
VC_LIT(954)
VC_LIT(955)
VC_LIT(956)
VC_LIT(957)
VC_LIT(958)
VC_LIT(959)
VC_LIT(960)
VC_LIT(961)
VC_LIT(962)
VC_LIT(963)
VC_LIT(964)
VC_LIT(965)
VC_LIT(966)
VC_LIT(967)
VC_LIT(968)
VC_LIT(969)
VC_LIT(970)
VC_LIT(971)
VC_LIT(972)
VC_LIT(973)
VC_LIT(974)
VC_LIT(975)
VC_LIT(976)
VC_LIT(977)
VC_LIT(978)
VC_LIT(979)
VC_LIT(980)
VC_LIT(981)
VC_LIT(982)
VC_LIT(983)
VC_LIT(984)
VC_LIT(985)
VC_LIT(986)
VC_LIT(987)
VC_LIT(988)
VC_LIT(989)
VC_LIT(990)
VC_LIT(991)
VC_LIT(992)
VC_LIT(993)
VC_LIT(994)
VC_LIT(995)
VC_LIT(996)
VC_LIT(997)
VC_LIT(998)
VC_LIT(999)
VC_LIT(1000)
VC_LIT(1001)
VC_LIT(1002)
VC_LIT(1003)
VC_LIT(1004)
VC_LIT(1005)
VC_LIT(1006)
VC_LIT(1007)
VC_LIT(1008)
VC_LIT(1009)
VC_LIT(1010)
VC_LIT(1011)
VC_LIT(1012)
VC_LIT(1013)
VC_LIT(1014)
VC_LIT(1015)
VC_LIT(1016)
VC_LIT(1017)
VC_LIT(1018)
VC_LIT(1019)
VC_LIT(1020)
VC_LIT(1021)
VC_LIT(1022)
VC_LIT(1023)
VC_LIT(1024)
VC_LIT(1490)
VC_LIT(1536)
VC_LIT(2048)
VC_LIT(2790)
VC_LIT(3072)
VC_LIT(4096)
VC_LIT(4269)
VC_LIT(4314)
VC_LIT(6144)
VC_LIT(8192)
