-------------------------------- MODULE Coins --------------------------------
(* The documented coins and networks (docs/cryptocurrencies.rst, written by    *)
(* tools/mkcoins.py at the pinned commit): WIF prefix and address prefix.           *)
(* Ripple is the one coin that declares an alphabet other than Bitcoin's.           *)
EXTENDS Naturals, Sequences, Octets, Base58
LOCAL INSTANCE TLC
LOCAL Btc(n) == [nets |-> n, alpha |-> BitcoinAlphabet]
LOCAL Xrp(n) == [nets |-> n, alpha |-> RippleAlphabet]
DocCoins ==
     ("Adcoin" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<23>>])))
  @@ ("Anon" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<5, 130>>])))
  @@ ("Argoneum" :> Btc(("mainnet" :> [wif |-> <<191>>, addr |-> <<50>>])))
  @@ ("Artax" :> Btc(("mainnet" :> [wif |-> <<151>>, addr |-> <<23>>])))
  @@ ("Aryacoin" :> Btc(("mainnet" :> [wif |-> <<151>>, addr |-> <<23>>])))
  @@ ("Asiacoin" :> Btc(("mainnet" :> [wif |-> <<151>>, addr |-> <<23>>])))
  @@ ("Auroracoin" :> Btc(("mainnet" :> [wif |-> <<151>>, addr |-> <<23>>])))
  @@ ("Avian" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<60>>])))
  @@ ("Axe" :> Btc(("mainnet" :> [wif |-> <<204>>, addr |-> <<55>>])))
  @@ ("Bata" :> Btc(("mainnet" :> [wif |-> <<164>>, addr |-> <<25>>])))
  @@ ("BeetleCoin" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<26>>])))
  @@ ("BelaCoin" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<25>>])))
  @@ ("BitCloud" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<25>>])))
  @@ ("BitSend" :> Btc(("mainnet" :> [wif |-> <<204>>, addr |-> <<102>>])))
  @@ ("Bitcoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<0>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<111>>]) @@ ("regtest" :> [wif |-> <<239>>, addr |-> <<111>>])))
  @@ ("BitcoinAtom" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<23>>])))
  @@ ("BitcoinGold" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<38>>])))
  @@ ("BitcoinGreen" :> Btc(("mainnet" :> [wif |-> <<46>>, addr |-> <<38>>])))
  @@ ("BitcoinPlus" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<25>>])))
  @@ ("BitcoinPrivate" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<19, 37>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<25, 87>>])))
  @@ ("BitcoinSV" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<0>>])))
  @@ ("BitcoinZ" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<28, 184>>])))
  @@ ("Bitcore" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<3>>])))
  @@ ("Blackcoin" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<25>>])))
  @@ ("BlockStamp" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<0>>])))
  @@ ("Blocknode" :> Btc(("mainnet" :> [wif |-> <<75>>, addr |-> <<25>>]) @@ ("testnet" :> [wif |-> <<137>>, addr |-> <<85>>])))
  @@ ("Bolivarcoin" :> Btc(("mainnet" :> [wif |-> <<213>>, addr |-> <<85>>])))
  @@ ("BritCoin" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<25>>])))
  @@ ("CPUChain" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<28>>])))
  @@ ("CanadaeCoin" :> Btc(("mainnet" :> [wif |-> <<156>>, addr |-> <<28>>])))
  @@ ("Cannacoin" :> Btc(("mainnet" :> [wif |-> <<156>>, addr |-> <<28>>])))
  @@ ("Clams" :> Btc(("mainnet" :> [wif |-> <<133>>, addr |-> <<137>>])))
  @@ ("ClubCoin" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<28>>])))
  @@ ("Compcoin" :> Btc(("mainnet" :> [wif |-> <<156>>, addr |-> <<28>>])))
  @@ ("CranePay" :> Btc(("mainnet" :> [wif |-> <<123>>, addr |-> <<28>>])))
  @@ ("Crave" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<70>>])))
  @@ ("Dash" :> Btc(("mainnet" :> [wif |-> <<204>>, addr |-> <<76>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<140>>])))
  @@ ("DeepOnion" :> Btc(("mainnet" :> [wif |-> <<159>>, addr |-> <<31>>])))
  @@ ("Defcoin" :> Btc(("mainnet" :> [wif |-> <<158>>, addr |-> <<30>>])))
  @@ ("Denarius" :> Btc(("mainnet" :> [wif |-> <<158>>, addr |-> <<30>>])))
  @@ ("Diamond" :> Btc(("mainnet" :> [wif |-> <<218>>, addr |-> <<90>>])))
  @@ ("DigiByte" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<30>>])))
  @@ ("Digitalcoin" :> Btc(("mainnet" :> [wif |-> <<158>>, addr |-> <<30>>])))
  @@ ("Divi" :> Btc(("mainnet" :> [wif |-> <<212>>, addr |-> <<30>>]) @@ ("testnet" :> [wif |-> <<212>>, addr |-> <<30>>])))
  @@ ("Dogecoin" :> Btc(("mainnet" :> [wif |-> <<241>>, addr |-> <<30>>]) @@ ("testnet" :> [wif |-> <<241>>, addr |-> <<113>>])))
  @@ ("EDRCoin" :> Btc(("mainnet" :> [wif |-> <<221>>, addr |-> <<93>>])))
  @@ ("Ecoin" :> Btc(("mainnet" :> [wif |-> <<220>>, addr |-> <<92>>])))
  @@ ("Einsteinium" :> Btc(("mainnet" :> [wif |-> <<161>>, addr |-> <<33>>])))
  @@ ("Elastos" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<33>>])))
  @@ ("Energi" :> Btc(("mainnet" :> [wif |-> <<106>>, addr |-> <<33>>])))
  @@ ("EuropeCoin" :> Btc(("mainnet" :> [wif |-> <<168>>, addr |-> <<33>>])))
  @@ ("Evrmore" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<33>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<111>>])))
  @@ ("ExclusiveCoin" :> Btc(("mainnet" :> [wif |-> <<161>>, addr |-> <<33>>])))
  @@ ("FIX" :> Btc(("mainnet" :> [wif |-> <<60>>, addr |-> <<35>>]) @@ ("testnet" :> [wif |-> <<237>>, addr |-> <<76>>])))
  @@ ("Feathercoin" :> Btc(("mainnet" :> [wif |-> <<142>>, addr |-> <<14>>])))
  @@ ("Firo" :> Btc(("mainnet" :> [wif |-> <<210>>, addr |-> <<82>>])))
  @@ ("Firstcoin" :> Btc(("mainnet" :> [wif |-> <<163>>, addr |-> <<35>>])))
  @@ ("Flashcoin" :> Btc(("mainnet" :> [wif |-> <<196>>, addr |-> <<68>>])))
  @@ ("Flux" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<28, 184>>])))
  @@ ("Foxdcoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<35>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<95>>])))
  @@ ("FujiCoin" :> Btc(("mainnet" :> [wif |-> <<164>>, addr |-> <<36>>])))
  @@ ("GCRCoin" :> Btc(("mainnet" :> [wif |-> <<154>>, addr |-> <<38>>])))
  @@ ("GameCredits" :> Btc(("mainnet" :> [wif |-> <<166>>, addr |-> <<38>>])))
  @@ ("GoByte" :> Btc(("mainnet" :> [wif |-> <<198>>, addr |-> <<38>>])))
  @@ ("Gridcoin" :> Btc(("mainnet" :> [wif |-> <<190>>, addr |-> <<62>>])))
  @@ ("GroestlCoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<36>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<111>>])))
  @@ ("Gulden" :> Btc(("mainnet" :> [wif |-> <<98>>, addr |-> <<38>>])))
  @@ ("Helleniccoin" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<48>>])))
  @@ ("Hempcoin" :> Btc(("mainnet" :> [wif |-> <<168>>, addr |-> <<40>>])))
  @@ ("Horizen" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<32, 137>>])))
  @@ ("Hush" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<28, 184>>])))
  @@ ("IXCoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<138>>])))
  @@ ("InsaneCoin" :> Btc(("mainnet" :> [wif |-> <<55>>, addr |-> <<102>>])))
  @@ ("InternetOfPeople" :> Btc(("mainnet" :> [wif |-> <<49>>, addr |-> <<117>>])))
  @@ ("Jumbucks" :> Btc(("mainnet" :> [wif |-> <<171>>, addr |-> <<43>>])))
  @@ ("Kobocoin" :> Btc(("mainnet" :> [wif |-> <<163>>, addr |-> <<35>>])))
  @@ ("Komodo" :> Btc(("mainnet" :> [wif |-> <<188>>, addr |-> <<60>>])))
  @@ ("LBRYCredits" :> Btc(("mainnet" :> [wif |-> <<28>>, addr |-> <<85>>])))
  @@ ("Landcoin" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<48>>])))
  @@ ("Linx" :> Btc(("mainnet" :> [wif |-> <<203>>, addr |-> <<75>>])))
  @@ ("Litecoin" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<48>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<111>>])))
  @@ ("LitecoinCash" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<28>>])))
  @@ ("LitecoinZ" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<10, 179>>])))
  @@ ("Lkrcoin" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<48>>])))
  @@ ("Lynx" :> Btc(("mainnet" :> [wif |-> <<173>>, addr |-> <<45>>])))
  @@ ("Mazacoin" :> Btc(("mainnet" :> [wif |-> <<224>>, addr |-> <<50>>])))
  @@ ("Megacoin" :> Btc(("mainnet" :> [wif |-> <<178>>, addr |-> <<50>>])))
  @@ ("Minexcoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<75>>])))
  @@ ("Monacoin" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<50>>])))
  @@ ("Monk" :> Btc(("mainnet" :> [wif |-> <<55>>, addr |-> <<51>>])))
  @@ ("Myriadcoin" :> Btc(("mainnet" :> [wif |-> <<178>>, addr |-> <<50>>])))
  @@ ("NIX" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<38>>])))
  @@ ("Namecoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<52>>])))
  @@ ("Navcoin" :> Btc(("mainnet" :> [wif |-> <<150>>, addr |-> <<53>>])))
  @@ ("Neblio" :> Btc(("mainnet" :> [wif |-> <<181>>, addr |-> <<53>>])))
  @@ ("Neoscoin" :> Btc(("mainnet" :> [wif |-> <<177>>, addr |-> <<53>>])))
  @@ ("Neurocoin" :> Btc(("mainnet" :> [wif |-> <<181>>, addr |-> <<53>>])))
  @@ ("NewYorkCoin" :> Btc(("mainnet" :> [wif |-> <<188>>, addr |-> <<60>>])))
  @@ ("Novacoin" :> Btc(("mainnet" :> [wif |-> <<136>>, addr |-> <<8>>])))
  @@ ("NuBits" :> Btc(("mainnet" :> [wif |-> <<150>>, addr |-> <<25>>])))
  @@ ("NuShares" :> Btc(("mainnet" :> [wif |-> <<149>>, addr |-> <<63>>])))
  @@ ("OKCash" :> Btc(("mainnet" :> [wif |-> <<3>>, addr |-> <<55>>])))
  @@ ("Omni" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<0>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<111>>])))
  @@ ("Onix" :> Btc(("mainnet" :> [wif |-> <<203>>, addr |-> <<75>>])))
  @@ ("Particl" :> Btc(("mainnet" :> [wif |-> <<108>>, addr |-> <<56>>])))
  @@ ("Peercoin" :> Btc(("mainnet" :> [wif |-> <<183>>, addr |-> <<55>>])))
  @@ ("Pesobit" :> Btc(("mainnet" :> [wif |-> <<183>>, addr |-> <<55>>])))
  @@ ("Phore" :> Btc(("mainnet" :> [wif |-> <<212>>, addr |-> <<55>>])))
  @@ ("Pinkcoin" :> Btc(("mainnet" :> [wif |-> <<131>>, addr |-> <<3>>])))
  @@ ("Pivx" :> Btc(("mainnet" :> [wif |-> <<212>>, addr |-> <<30>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<139>>])))
  @@ ("PoSWCoin" :> Btc(("mainnet" :> [wif |-> <<183>>, addr |-> <<55>>])))
  @@ ("Potcoin" :> Btc(("mainnet" :> [wif |-> <<183>>, addr |-> <<55>>])))
  @@ ("ProjectCoin" :> Btc(("mainnet" :> [wif |-> <<117>>, addr |-> <<55>>])))
  @@ ("Putincoin" :> Btc(("mainnet" :> [wif |-> <<183>>, addr |-> <<55>>])))
  @@ ("Qtum" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<58>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<120>>])))
  @@ ("RSK" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<0>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<111>>])))
  @@ ("Rapids" :> Btc(("mainnet" :> [wif |-> <<46>>, addr |-> <<61>>])))
  @@ ("Ravencoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<60>>]) @@ ("testnet" :> [wif |-> <<128>>, addr |-> <<111>>])))
  @@ ("Reddcoin" :> Btc(("mainnet" :> [wif |-> <<189>>, addr |-> <<61>>])))
  @@ ("Ripple" :> Xrp(("mainnet" :> [wif |-> <<128>>, addr |-> <<0>>])))
  @@ ("Ritocoin" :> Btc(("mainnet" :> [wif |-> <<139>>, addr |-> <<25>>])))
  @@ ("Rubycoin" :> Btc(("mainnet" :> [wif |-> <<188>>, addr |-> <<60>>])))
  @@ ("Safecoin" :> Btc(("mainnet" :> [wif |-> <<189>>, addr |-> <<61>>])))
  @@ ("Saluscoin" :> Btc(("mainnet" :> [wif |-> <<191>>, addr |-> <<63>>])))
  @@ ("Scribe" :> Btc(("mainnet" :> [wif |-> <<110>>, addr |-> <<60>>])))
  @@ ("ShadowCash" :> Btc(("mainnet" :> [wif |-> <<191>>, addr |-> <<63>>]) @@ ("testnet" :> [wif |-> <<255>>, addr |-> <<127>>])))
  @@ ("Slimcoin" :> Btc(("mainnet" :> [wif |-> <<70>>, addr |-> <<63>>]) @@ ("testnet" :> [wif |-> <<87>>, addr |-> <<111>>])))
  @@ ("Smileycoin" :> Btc(("mainnet" :> [wif |-> <<5>>, addr |-> <<25>>])))
  @@ ("Solarcoin" :> Btc(("mainnet" :> [wif |-> <<146>>, addr |-> <<18>>])))
  @@ ("Stash" :> Btc(("mainnet" :> [wif |-> <<204>>, addr |-> <<76>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<140>>])))
  @@ ("Stratis" :> Btc(("mainnet" :> [wif |-> <<191>>, addr |-> <<63>>]) @@ ("testnet" :> [wif |-> <<191>>, addr |-> <<65>>])))
  @@ ("Sugarchain" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<63>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<66>>])))
  @@ ("Syscoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<63>>])))
  @@ ("TOACoin" :> Btc(("mainnet" :> [wif |-> <<193>>, addr |-> <<65>>])))
  @@ ("TWINS" :> Btc(("mainnet" :> [wif |-> <<66>>, addr |-> <<73>>]) @@ ("testnet" :> [wif |-> <<237>>, addr |-> <<76>>])))
  @@ ("ThoughtAI" :> Btc(("mainnet" :> [wif |-> <<123>>, addr |-> <<7>>])))
  @@ ("UltimateSecureCash" :> Btc(("mainnet" :> [wif |-> <<191>>, addr |-> <<68>>])))
  @@ ("Unobtanium" :> Btc(("mainnet" :> [wif |-> <<224>>, addr |-> <<130>>])))
  @@ ("Vcash" :> Btc(("mainnet" :> [wif |-> <<199>>, addr |-> <<71>>])))
  @@ ("Verge" :> Btc(("mainnet" :> [wif |-> <<158>>, addr |-> <<30>>])))
  @@ ("Vertcoin" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<71>>])))
  @@ ("Viacoin" :> Btc(("mainnet" :> [wif |-> <<199>>, addr |-> <<71>>]) @@ ("testnet" :> [wif |-> <<255>>, addr |-> <<127>>])))
  @@ ("VirtualCash" :> Btc(("mainnet" :> [wif |-> <<199>>, addr |-> <<71>>])))
  @@ ("Vivo" :> Btc(("mainnet" :> [wif |-> <<198>>, addr |-> <<70>>])))
  @@ ("Voxels" :> Btc(("mainnet" :> [wif |-> <<198>>, addr |-> <<70>>])))
  @@ ("Wagerr" :> Btc(("mainnet" :> [wif |-> <<199>>, addr |-> <<73>>])))
  @@ ("Whitecoin" :> Btc(("mainnet" :> [wif |-> <<201>>, addr |-> <<73>>])))
  @@ ("Wincoin" :> Btc(("mainnet" :> [wif |-> <<201>>, addr |-> <<73>>])))
  @@ ("XUEZ" :> Btc(("mainnet" :> [wif |-> <<212>>, addr |-> <<75>>])))
  @@ ("Ycash" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<28, 40>>])))
  @@ ("ZClassic" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<28, 184>>])))
  @@ ("Zcash" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<28, 184>>]) @@ ("testnet" :> [wif |-> <<239>>, addr |-> <<29, 37>>])))
  @@ ("Zetacoin" :> Btc(("mainnet" :> [wif |-> <<224>>, addr |-> <<80>>])))
  @@ ("ZooBC" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<0>>])))
  @@ ("eGulden" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<48>>])))
(* Coins a user may define for himself; the driver makes classes of them, whose   *)
(* names may be those of other coins.                                              *)
UserCoins ==
     ("User1" :> Btc(("mainnet" :> [wif |-> <<128>>, addr |-> <<0>>]) @@ ("regtest" :> [wif |-> <<239>>, addr |-> <<111>>]) @@ ("signet" :> [wif |-> <<240>>, addr |-> <<122>>])))
  @@ ("User2" :> Btc(("mainnet" :> [wif |-> <<153>>, addr |-> <<28, 184>>]) @@ ("regtest" :> [wif |-> <<128>>, addr |-> <<0>>])))
  @@ ("User3" :> Btc(("mainnet" :> [wif |-> <<176>>, addr |-> <<48>>]) @@ ("testnet" :> [wif |-> <<128>>, addr |-> <<0>>])))
  @@ ("User4" :> Btc(("mainnet" :> [wif |-> <<239>>, addr |-> <<111>>]) @@ ("testnet" :> [wif |-> <<128>>, addr |-> <<0>>]) @@ ("MainNet" :> [wif |-> <<5>>, addr |-> <<5>>]) @@ ("a b" :> [wif |-> <<127>>, addr |-> <<25, 1>>])))
  @@ ("User6" :> Btc(("x" :> [wif |-> <<255>>, addr |-> <<255>>]) @@ ("0" :> [wif |-> <<1>>, addr |-> <<255, 254>>])))
RealCoins == DocCoins @@ UserCoins
=============================================================================
