package core

// preParamsJSON holds twelve sets of pre-parameters with small moduli (768 bit Paillier,
// 256 bit N-tilde): tss-lib's own code runs on them unchanged, about 40 times faster.
const preParamsJSON = `[{"PaillierSK":{"N":1339143931271838055221624397657794218117724918549011006639790217473214724125129378476211425480262346250777894656721119794798089208214492586855196782246232046172431819167095152121852794428563499807107453947077174903788177340937512357,"LambdaN":669571965635919027610812198828897109058862459274505503319895108736607362062564689238105712740131173125388947328360523251366054886761089986737087670066639458371352415341220230897580742951937889300327514567669263851526061965489357558,"PhiN":1339143931271838055221624397657794218117724918549011006639790217473214724125129378476211425480262346250777894656721046502732109773522179973474175340133278916742704830682440461795161485903875778600655029135338527703052123930978715116},"NTildei":89793216866986629904268651066478225155411360972034458347184905171903073396113,"H1i":32064234760774691443985979892961083734833175011946068279942742994923312026773,"H2i":63547453798160263162256650890396915090019154044804232829019315847860581581564,"Alpha":80613385108741816300241152786853522881746186601388626711943573226515874977587,"Beta":16007032299772580126320580296175219054012689812772319542568972510519488243087,"P":136123381164393533453783247615786825389,"Q":164911450367488899230084953349168990273},{"PaillierSK":{"N":1005496633719051339658670961967083053066965876393434701326449909768298554168892699251800388872886357806621338192715812312121932487119073345024475316149320312535150457380706043354052278797452399010142005887555406003444153602201453457,"LambdaN":502748316859525669829335480983541526533482938196717350663224954884149277084446349625900194436443178903310669096357874395415671853807232704760357787839287921110312518427949241508624078172199846699665989484506357417970001476087113618,"PhiN":1005496633719051339658670961967083053066965876393434701326449909768298554168892699251800388872886357806621338192715748790831343707614465409520715575678575842220625036855898483017248156344399693399331978969012714835940002952174227236},"NTildei":74425447206318878290471080353154627485472941240209343682894091248997182466213,"H1i":67882068803924272992127304538583455374700619169795125073501344744354563532521,"H2i":66557126733633801553192160269204498761051842197951216912774394477879055992272,"Alpha":4935965694126714361602064018933039664009637314115671264338063360258236851551,"Beta":9974759136033254227783976370157099526528124306707036127706153545859173540863,"P":138651768975999966171458055394992037829,"Q":134194911027787910711062448841995173703},{"PaillierSK":{"N":1326623150592262535445897577717404633868376497328503806106962196548082340589147115904475273277465183608746742491719213937715347048417724148874904312353093467269930015163061412604381962850584412415270098507066958499684843131542181149,"LambdaN":663311575296131267722948788858702316934188248664251903053481098274041170294573557952237636638732591804373371245859570477140081001928431553993785521900165800707937780093187046942769171731496427806594270784849507352865015409254631918,"PhiN":1326623150592262535445897577717404633868376497328503806106962196548082340589147115904475273277465183608746742491719140954280162003856863107987571043800331601415875560186374093885538343462992855613188541569699014705730030818509263836},"NTildei":81048029683556466271791045539885887978114297836207892875199391024234105436241,"H1i":7424928669767920230767485834191153755288028649156138944156943480934474709111,"H2i":78393289884397262039613918237793827686622020989642873971315815475488882650912,"Alpha":39128403158333984586341510812849266077299578306715772540992581625243537245684,"Beta":19973457369716926260338763125743631031353633680509369860093335620804361972545,"P":158096038835855620721491914621033098309,"Q":128162650817116900272318600257558984969},{"PaillierSK":{"N":1438505668630419614980691066061845262891367198831762076960702185296247059907768739074636502200803585898529019942001582171846913084695957386651285694107932172420334727706975429597834429801906569618274630335323133323440896965901228353,"LambdaN":719252834315209807490345533030922631445683599415881038480351092648123529953884369537318251100401792949264509971000753157967252983807323810963946907536345554596573255815376473469347218607077587326572156291519647335907049921497167274,"PhiN":1438505668630419614980691066061845262891367198831762076960702185296247059907768739074636502200803585898529019942001506315934505967614647621927893815072691109193146511630752946938694437214155174653144312583039294671814099842994334548},"NTildei":103649912409092858678733356153062379763384245200966016574828551651194604969389,"H1i":24201057489620720780184966749522312963649802771309195825222424908014918594407,"H2i":80963584628502042982016984182388331867622784247553659529223334997474130164588,"Alpha":69501855198522105097824353610815343139839784413386034451683583082725124916867,"Beta":5727628443012144440130093074293379359691917026260419072696473146851431448061,"P":155121690163846942429695492880504475921,"Q":167046130524385190353141458034390219511},{"PaillierSK":{"N":1277091564261851191294512271739481650983298333956082394337824037475571553534370634217307633192390470196023063928534067972099469756775949414529109939543699245533803538420777038383038699592126750171441432130871416588131055898236383501,"LambdaN":638545782130925595647256135869740825491649166978041197168912018737785776767185317108653816596195235098011531964266998125120145663982367066108716694978281061679395928059058823283583429303426966142244269249267889161356947206396921326,"PhiN":1277091564261851191294512271739481650983298333956082394337824037475571553534370634217307633192390470196023063928533996250240291327964734132217433389956562123358791856118117646567166858606853932284488538498535778322713894412793842652},"NTildei":88326349802384224066996963756536040079259735765872759469346394734336585582861,"H1i":33222730855591471019178414827229634661120793523701289789959045306119608088619,"H2i":42031980776700201217425517037027696061773273395319000645997778938974589444081,"Alpha":42744929849628255252970010570148590606703000902024822083863130653403412023453,"Beta":18653207237214252820639573188219237588645042185848914065663025592205808523739,"P":163392676562461107002484094002683402333,"Q":135144291134460937650561185354705693291},{"PaillierSK":{"N":1176293914090729499602803378391303115880176301386027736121504657971512335121220792444719574507582282319727980410890568179554014559926898160521536731758988911313839283401651235621431952207580674066511178177022779000409535575372148649,"LambdaN":588146957045364749801401689195651557940088150693013868060752328985756167560610396222359787253791141159863990205445249701215044531284602379331141455775154838609594529265721871572144550108837397151660698286085857525919224994904547818,"PhiN":1176293914090729499602803378391303115880176301386027736121504657971512335121220792444719574507582282319727980410890499402430089062569204758662282911550309677219189058531443743144289100217674794303321396572171715051838449989809095636},"NTildei":71770658364861647111494264032321003580112293498525324256759769137923390426213,"H1i":19546615296712455652928781102226619207563754943364655034805506087602226231966,"H2i":24270449833772770675751726030723886780640688072302396654034309384311333784681,"Alpha":39336811076056930665547107621998542755494635607509792801663372132274705570412,"Beta":9322162182059165778969057616387622375073954628794884081485178817282289668260,"P":134053991820818049281387554918990359089,"Q":133846552031052518508794686603547042123},{"PaillierSK":{"N":1118119702989111228696919973548699604489914205014039206765756842688890355189002519490081070429972418480494140945031421709287393908033114185362452531909362489784817176067591762001760199509474798618965935273113520120260116470784396241,"LambdaN":559059851494555614348459986774349802244957102507019603382878421344445177594501259745040535214986209240247070472515677211043820765640791609831636276376442925518287182957675113038739788732517175572080993873271888814554509284625803186,"PhiN":1118119702989111228696919973548699604489914205014039206765756842688890355189002519490081070429972418480494140945031354422087641531281583219663272552752885851036574365915350226077479577465034351144161987746543777629109018569251606372},"NTildei":86727061292813926189440370345472059101155773050855425346517808720318925141301,"H1i":52848907397712959845834247972710076655730039432856410911548750394088827158766,"H2i":38596060649779776301988268940662173349882379100671338446809067390971222946199,"Alpha":26981332688276377576986928779818070215833087563836968037749677836869448479847,"Beta":6900845927361297746147062921797536767177578666494453741926973293696774794858,"P":150648138913096553764745330272225667321,"Q":143923220556417928315659164507418795803},{"PaillierSK":{"N":1159896666501168431716686523512623751421274431887783714757268671591447748582574565871066135908180496816894575006243747681355406451061699351980563439104828779111683186875327820111559651778949035468400736378442576129775554368767403161,"LambdaN":579948333250584215858343261756311875710637215943891857378634335795723874291287282935533067954090248408447287503121839646622221610622115490639091417787143954598584594483965837062845785155168729225020708249794107353842436249214746162,"PhiN":1159896666501168431716686523512623751421274431887783714757268671591447748582574565871066135908180496816894575006243679293244443221244230981278182835574287909197169188967931674125691570310337458450041416499588214707684872498429492324},"NTildei":76890940141046013146123385295564545999637297331640749900871167216432966837389,"H1i":16526424668244945067318560424422262873327888657292272872352757191006908121574,"H2i":34505140787312635401279644883286424628687667964922421078831497320248232546302,"Alpha":55275899154214547327444335215668266684496870300147390664591380943872878839106,"Beta":19035448545915477030278936215719514813149243022986154424916378561780695245958,"P":127746505039207919494164671732527778681,"Q":150475623809525490676811566887234591551},{"PaillierSK":{"N":1166749164643107036613587832393702183614775781644209750266742400633271096149182838020847601026930629808752093122429376428239079646222294445354184383592307081342254182430773282869597385497559023680127874928539177170054440844872131981,"LambdaN":583374582321553518306793916196851091807387890822104875133371200316635548074591419010423800513465314904376046561214653895665983679068357633109534387597166612147881841345184169809181737138120212081679854381655863367633645023523663566,"PhiN":1166749164643107036613587832393702183614775781644209750266742400633271096149182838020847601026930629808752093122429307791331967358136715266219068775194333224295763682690368339618363474276240424163359708763311726735267290047047327132},"NTildei":90067707454909354955913105082874551073809816737408443877617906400835077199741,"H1i":28850611188157388485547101978615865163271958827919176892948391779198784676061,"H2i":61884979023518475567283748038182082961194010194039538488169387892003741591483,"Alpha":43075816146015031641195414876484225263445258358138883502984138104932194057166,"Beta":3357923625698573155044636022388691306737872238702977075266583796650872100716,"P":149631049652954737955473133358284128853,"Q":150482984086202331564315900862296310331},{"PaillierSK":{"N":1436049596146833822353888278397562541125322563614416022528731278769298362247028498154239989766450883095333655886104031791094438089774405933146255004456857746971988306443170890032525591555622034902023060259398509729430796627945844757,"LambdaN":718024798073416911176944139198781270562661281807208011264365639384649181123514249077119994883225441547666827943051977999692806420418072198638280894369902694992209908851097252957540164916748928294449394425966952038215260818158856518,"PhiN":1436049596146833822353888278397562541125322563614416022528731278769298362247028498154239989766450883095333655886103955999385612840836144397276561788739805389984419817702194505915080329833497856588898788851933904076430521636317713036},"NTildei":80702645908459782280974111430761472145062549322340561824949644181637571871049,"H1i":14202807842239970451125464496954893139909092671260839518755234703598154671662,"H2i":29191338538429278903604231505248171476819213233415087271317022176658888087999,"Alpha":74576320769535854288254176401805746632060851555178297337584587502348651108584,"Beta":13511506292692653791362894603278200361734691490077637667223221668762948281139,"P":146436144600457207816109771380847226011,"Q":137777879444744357513454782182489021631},{"PaillierSK":{"N":953842552480528830901300743909237090198436340745942874908021930912159511873356870218934589553983275886090331648504393205686838266991766898571276455057448185126685787378531747079525978808624694868265033647592368003724769094082949969,"LambdaN":476921276240264415450650371954618545099218170372971437454010965456079755936678435109467294776991637943045165824252165718182844444379024702716207938604709320859596869201237955127030981493619637366223632282710284675277808244038077522,"PhiN":953842552480528830901300743909237090198436340745942874908021930912159511873356870218934589553983275886090331648504331436365688888758049405432415877209418641719193738402475910254061962987239274732447264565420569350555616488076155044},"NTildei":75343430840890880666532604872986695279879730456887560839493883129249928632141,"H1i":65420843458999409242240379552964308903791358604597577981329235997267809578037,"H2i":73766281403659370940747288232286925045958612897644083902767346381918018373089,"Alpha":9012280828647771968520501427781191094027557611762552558325085020880743958598,"Beta":17343732166390601803063545534910051303927965396039833196477972141634648611750,"P":146003212040314048996694925121690433111,"Q":129009885789511324653986210403833211233},{"PaillierSK":{"N":1239888111694042055629527080516502965892508643250475015551715207514527387436622252688620103769465633771415759274024695473497698357800249139274569262410047538122706824436850453866023552997741983929305663241909437045133567029895599889,"LambdaN":619944055847021027814763540258251482946254321625237507775857603757263693718311126344310051884732816885707879637012312462303515391339204826882339396312279275908020104588424643598651195420425441999077302816443068428097243691083311378,"PhiN":1239888111694042055629527080516502965892508643250475015551715207514527387436622252688620103769465633771415759274024624924607030782678409653764678792624558551816040209176849287197302390840850883998154605632886136856194487382166622756},"NTildei":85788231950206361415172056579201422330094840472508834305774991771485282389949,"H1i":41860653278265131529328685486675015375318481899117548162966994367786446205749,"H2i":24537383556559297064583196052274011612778321903466363740440397784299997031064,"Alpha":1487707829815813719222694846224041204551306426684058344712144054134367571589,"Beta":7033254614149195814281237263762270843631063467000786142803686953531874545787,"P":143187205632439019330941019225377125683,"Q":149783340577272678288470931455871308573}]`
