namespace helfem { namespace atomdb { namespace data {
extern const int max_Z; const int max_Z=4;
extern const int lmax; const int lmax=2;
extern const int Nbf; const int Nbf=11;
extern const int nelem; const int nelem=3;
extern const int nnodes; const int nnodes=5;
extern const int primbas; const int primbas=4;
extern const int nquad; const int nquad=40;
extern const int norbital; const int norbital=10;
extern const double bval[]; const double bval[]={0.0,0.7,2.0,6.0};
extern const int norb[][4]; const int norb[][4]={{1,0,0,0},{2,0,0,0},{2,1,0,0},{2,1,1,0}};
extern const int offset[][4]; const int offset[][4]={{0,1,1,1},{1,3,3,3},{3,5,6,6},{6,8,9,10}};
extern const double occupations[]; const double occupations[]={1.0,1.5,0.5,2.0,0.75,0.25,2.0,1.25,0.5,0.25};
extern const double coefficients[]; const double coefficients[]={0.7620906917604419,0.2316861926134556,0.25216608629384996,0.31318747270288483,0.1519497512346465,0.0522796047058987,0.08093163211415733,0.07623676032944626,0.028340805312732725,0.015043593120045391,0.02410038109909401,0.47515594903585723,0.21065473226793627,0.2937119721524141,0.18243065141427559,0.04925041890006279,0.03849587160999071,0.04515837700715972,0.020971786241681105,0.005753394280575945,0.0070478340875167545,0.006352669141384612,0.3801247592286858,0.38545744433975226,0.1060301847655162,0.15948605502426216,0.03333291763587773,0.06037681928793767,0.013329658547824695,0.020910483144262734,0.0064005402888484735,0.006631100199846219,0.0031832994744515003,0.3030022510198664,0.32521882920046397,0.26711650727731245,0.0854923742389889,0.028393820345231892,0.03595556241146421,0.0221579069234424,0.005638075225166606,0.003223394747628752,0.0036550441370216684,0.0016827599180710838,0.24240180081589313,0.3918029956721776,0.07636034691487995,0.1092571415958904,0.02914148186990159,0.027893135406847788,0.011616479841917958,0.006559451722514461,0.004411585190859314,0.001460040708834989,0.0015459698811027588,0.30996054222616165,0.3890917319365161,0.25606952340603145,0.0680445920980715,0.034132205322463756,0.04033927936655208,0.019834784376049783,0.004660548514708464,0.0040518459635198205,0.00382939525553476,0.0014118146027961751,0.40390691374091636,0.42230301282622396,0.18040151022232884,0.038657476239238285,0.032940873440680286,0.02715769921773666,0.008714866660847163,0.0022750408678521143,0.0025689914423963436,0.001597725002420694,0.0003972898490112016,0.3231255309927331,0.290627223713582,0.10686546310758505,0.05693366553427919,0.03379692546254318,0.010525146326885258,0.009873124593449639,0.0019844896677658746,0.0026418529129587196,0.00044111074640503775,0.0006467228070941265,0.5078001390064741,0.44443417913860034,0.1519497512346465,0.03684081477144922,0.0401894591197434,0.02667812030921304,0.006988756545780046,0.002614184500134278,0.0029512465889307282,0.001465178098935603,0.00031998819722934256,0.6262496950318339,0.4434389011151703,0.12286781065756854,0.04080770517639299,0.046853355967766505,0.024847154519813872,0.005579758555227779,0.0032459969193815706,0.0032178516144103293,0.0012752590785407739,0.00027854711214437953};
}}}
