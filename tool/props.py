import json
L="CoarseGrainSites/src/libmythical/"
CU=[L+"charge_transport/cuboid_lattice.cpp","CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp"]
SI=[L+"topologyfeatures/site.cpp",L+"topologyfeatures/site.hpp",L+"topologyfeatures/topology_feature.cpp",L+"topologyfeatures/topology_feature.hpp"]
CL=[L+"topologyfeatures/cluster.cpp",L+"topologyfeatures/cluster.hpp"]
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Lattice index and position are a bijection, out-of-range requests rejected",
 "For every cuboid lattice with positive dimensions, converting a valid site index to its x, y, z position and back gives the same index, converting an in-range position to an index and back gives the same position, and every position component lies inside the lattice. The three per-axis queries agree with the position query. Indices outside 0..total-1, positions outside a fixed boundary, position vectors that do not have three components and negative lattice dimensions are all rejected with an invalid-argument error.",
 ["inputs","configurations"],"all lattice dimensions, boundary settings, spacings, indices and positions",
 "The tests convert a few indices of one or two small lattices; the bijection involves products of three symbolic dimensions and every out-of-range value, on every axis.",
 CU,[("index = z*L*W + y*L + x",L+"charge_transport/cuboid_lattice.cpp getIndex_/getPos_"),("range checks","checkPosX_/Y_/Z_, checkIndex_, checkBounds_, getPosition, getX, getY, getZ")],["Cuboid constructors","getIndex","getPosition","getX/getY/getZ"],
 [("length_/width_/height_/total_","lattice dimensions","Cuboid")])
p("C02","Periodic coordinates wrap modulo the lattice for every integer",
 "On an axis with a periodic boundary, any integer coordinate, however far below zero or above the lattice, denotes the site whose coordinate is its mathematical remainder modulo the axis length, so shifting a coordinate by any multiple of the axis length never changes the index. Axes with a fixed boundary are not wrapped: in-range coordinates are used as given.",
 ["inputs","configurations"],"all integer coordinates, all dimensions, all eight combinations of boundary settings",
 "Tests wrap by one lattice length at most; far negative coordinates, mixed boundaries and unequal dimensions are not sampled.",
 CU,[("remainder per axis","getXPeriodic_/getYPeriodic_/getZPeriodic_, getIndex")],["Cuboid::getIndex"])
p("C03","A site's neighbor list is exactly the sites within the cutoff",
 "For every valid site and cutoff, the neighbor list and the neighbor-distance list of one site contain, for every integer displacement whose length is at most the cutoff and which ends on the lattice (after wrapping periodic axes) at a different site, exactly one entry for that displacement, and nothing else. Every reported distance is the Euclidean length of that displacement times the lattice spacing, the site itself is never listed, and the three ways of asking (ids by index, distances by index, distances by position) agree. Out-of-range sites and positions are rejected.",
 ["inputs","configurations"],"all lattices with positive dimensions and positive spacing, all boundary settings, all sites, all non-negative cutoffs",
 "The tests compare a handful of lists on small lattices; completeness and soundness are statements about every displacement in a cube of unbounded size.",
 CU,[("triple loop over displacements with wrap and cutoff test","getNeighbors, getNeighborDistances_, getDistance_")],["Cuboid::getNeighbors","Cuboid::getNeighborDistances(index,cutoff)","Cuboid::getNeighborDistances(position,cutoff)"])
p("C04","The whole-lattice neighbor map is complete, symmetric and closest-image",
 "The neighbor map of the whole lattice lists, for every site, exactly the other sites that can be reached by a displacement no longer than the cutoff, each with the length of the shortest such displacement over all periodic images. The map is symmetric: if a is listed for b with some distance then b is listed for a with the same distance, and no site is listed as its own neighbor.",
 ["inputs","configurations"],"all lattices with positive dimensions, all boundary settings, all cutoffs",
 "Tests look at a few entries of one lattice; symmetry and closest image need all pairs, with periodic images that coincide on small or mixed-boundary lattices.",
 CU,[("loop over all sites and displacements","getNeighborDistances(cutoff)")],["Cuboid::getNeighborDistances(cutoff)"])
p("C05","Smallest distance is the minimum-image distance",
 "The smallest distance between two valid sites is the Euclidean distance, times the lattice spacing, of the closest pair of their periodic images: along a periodic axis the separation used never exceeds half the axis length, along a fixed axis it is the plain coordinate difference. It is therefore symmetric, non-negative, zero only between a site and itself (for positive spacing), and never larger than the direct distance; out-of-range sites are rejected.",
 ["inputs","configurations"],"all lattices with positive dimensions, all boundary settings, all pairs of sites",
 "The tests check a few pairs on cubic lattices where mixing up axes or images often gives the same number.",
 CU,[("per-axis minimum over the three nearest images","getSmallestDistance")],["Cuboid::getSmallestDistance"])
p("C06","Random sites lie in the requested plane of the lattice",
 "A random site drawn for a plane always is a valid site whose coordinate perpendicular to that plane equals the requested plane index, and its two other coordinates can be any coordinates of the lattice, each drawn from the range of its own axis. A plane index outside the lattice is rejected with an invalid-argument error, whatever the boundary setting.",
 ["inputs","configurations","histories"],"all lattices, planes, plane indices and random draws",
 "Tests draw a few random sites of one lattice; the range of every draw on every axis of non-cubic lattices is not reached.",
 CU,[("bounds check, one uniform draw per free axis","getRandomSite, setDistributions_")],["Cuboid::getRandomSite"])
p("C07","Marcus rate follows the formula, is positive and detail-balanced",
 "For positive reorganisation energy and temperature the rate is (2 pi / h_bar) * J^2 / sqrt(4 pi k_B T) * exp(-(E_j - E_i + lambda)^2 / (4 lambda k_B T)) with J the coupling, E_i the energy of the site being left and E_j that of the site being entered. It is never negative, positive for non-zero coupling, independent of the sign of the coupling and of a common shift of both energies, and forward and backward rates obey detailed balance: their ratio is exp(-(E_j - E_i) / (k_B T)).",
 ["inputs"],"all energies, couplings, reorganisation energies > 0 and temperatures > 0",
 "Tests compare three numbers; symmetry and detailed balance relate unbounded families of inputs.",
 [L+"charge_transport/marcus.cpp","CoarseGrainSites/include/mythical/charge_transport/marcus.hpp","CoarseGrainSites/include/mythical/constants.hpp"],[("precomputed prefactor and exponent denominator","Marcus constructor, getRate")],["Marcus::getRate"])
p("C08","The walker queue keeps every walker and serves them in time order",
 "Adding a walker adds exactly that id and time and loses or alters nothing else already queued; popping removes exactly the entry at the front and returns it. Whenever the queue reports itself sorted its entries are in non-decreasing time order, so popping returns a walker with the smallest time; sorting makes it sorted and is a permutation, and sorted insertion keeps a sorted queue sorted and puts a walker behind all walkers with the same time. Indexed access returns the entry at that place and rejects indices outside the queue.",
 ["inputs","histories"],"all sequences of queue operations and all ids and times",
 "Tests run a couple of fixed sequences; ordering and conservation must hold for all histories, including ties and insertion at both ends.",
 [L+"queue.cpp","CoarseGrainSites/include/mythical/queue.hpp"],[("deque plus sorted flag","Queue::add, sortedAdd, sort, pop_current, isSorted")],["Queue::*"],[("sorted_","whether the entries are known to be in order","Queue")])
p("C09","Walkers and ids return what was last set, never an unset value",
 "A walker returns the site it was last told to occupy, the potential site last set and the dwell time last set, each independent of the other two. Reading an id that was never set raises an error instead of returning a value, and after it was set the last id is returned; a walker whose current or potential site was never set refuses to report it.",
 ["inputs","histories"],"all sequences of setters and getters and all values",
 "Tests set each value once; the claim is about all interleavings and values.",
 [L+"walker.cpp","CoarseGrainSites/include/mythical/walker.hpp",L+"identity.hpp"],[("unassigned sentinel and id flag","Walker, Identity")],["Walker::*","Identity::getId/setId"])
p("C10","Site hop probabilities and time constant always match its current rates",
 "After every change of a site's rates (set in bulk, add one, replace one) the probability of hopping to each neighbor is that neighbor's rate divided by the sum of all rates, the probabilities of all neighbors add up to one with exactly one entry per neighbor, and the time constant is the reciprocal of the sum of all rates. The rate, neighbor-list, fastest-rate and is-neighbor queries all reflect exactly the current rates. Empty rate sets, zero rates given in bulk and adding a neighbor twice are refused, and asking for the rate or probability of a non-neighbor is refused.",
 ["inputs","histories"],"all rate sets of any size, all neighbor ids, all sequences of changes (positive rates)",
 "Tests use two to four neighbors and one change; the sums are over sets of any size and the derived data must be refreshed after any history.",
 SI,[("recompute on every change","Site::setRatesToNeighbors, addNeighRate, resetNeighRate, calculateProbabilityHopToNeighbors_, calculateDwellTimeConstant_")],["Site getters"],[("probabilityHopToNeighbor_","derived distribution","Site")])
p("C11","Picking the next site samples exactly the hop distribution",
 "For a uniform random number u in [0,1) the site picked next is the neighbor whose interval of the cumulative hop distribution contains u, so every pick is one of the site's current neighbors and each is picked with exactly its hop probability. Picking changes nothing about the site except the state of its random number generator.",
 ["inputs","histories"],"all distributions of any size and every random number in [0,1)",
 "Tests draw a finite sample and compare frequencies loosely; a pick that can never hit a neighbor, or an off-by-one interval at one boundary, is invisible to them.",
 SI,[("inverse cumulative distribution walk","Site::pickNewSiteId")],["Site::pickNewSiteId"])
p("C12","Dwell times are exponential with the current time constant",
 "The dwell time drawn for a site is minus the natural logarithm of a uniform random number times the current time constant of the site, hence never negative and exponentially distributed with that mean. Drawing uses one random number per call and changes nothing else, and re-seeding makes the sequence reproducible.",
 ["inputs","histories"],"all random numbers in (0,1), all time constants",
 "Tests average a finite sample with a tolerance.",
 SI,[("inverse transform","TopologyFeature::getDwellTime, setRandomSeed")],["TopologyFeature::getDwellTime"])
p("C13","Site occupancy and visit counts follow every occupy and vacate",
 "A site starts unoccupied with no visits, every occupy adds one walker and one visit, every vacate removes one walker and leaves the visits alone, and the site reports itself occupied exactly while more walkers entered than left. Setting the visit count replaces it; querying changes nothing; forcing the status to occupied or unoccupied takes effect at once.",
 ["histories"],"all sequences of occupy, vacate, status and visit-count operations",
 "Tests run one short sequence; counting must hold for every history.",
 SI,[("counter updates via function pointers","occupyTopology_, vacateTopology_, isOccupiedTopology_, TopologyFeature")],["TopologyFeature::occupy/vacate/isOccupied/getVisitFrequency"])
p("C14","A cluster tracks occupancy per member site and forgets removed walkers",
 "Occupying, vacating and querying a member site through its cluster acts on exactly that member: it is reported occupied after being occupied until it is vacated, and no other member changes. Each such occupation counts one visit of the cluster. Removing a walker vacates its site and discards the remaining dwell time stored for that walker and for no other, so a walker that comes back starts a new dwell time.",
 ["histories","inputs"],"all clusters, members, walkers and sequences of operations",
 "Tests occupy and vacate a single member; independence of members and walkers is a frame condition over all histories.",
 CL+SI[2:],[("cluster-specific handlers installed by the constructor","occupyCluster_, vacateCluster_, isOccupiedCluster_, removeWalkerCluster_, TopologyFeature::removeWalker")],["Cluster::occupy/vacate/isOccupied/removeWalker"],[("remaining_walker_dwell_times_","dwell time left per walker","Cluster")])
p("C15","Cluster occupation probabilities form a probability distribution",
 "After a cluster is updated, each member site has a strictly positive occupation probability and the probabilities of all members add up to one, for every convergence method, number of iterations and tolerance, and every set of positive rates in which internal neighbors are mutual and some exist. Each sweep of the master equation moves the probabilities half way from the old ones to the normalised inflow from the other members. Asking for the probability of a site that is not a member is refused.",
 ["inputs","configurations"],"all clusters with at least two members and mutual positive internal rates, all convergence settings",
 "Tests compare a few converged values of symmetric clusters within 1e-2; positivity and normalisation must hold for every rate set and every iteration count.",
 CL,[("initialise uniformly, iterate, normalise","initializeProbabilityOnSites_, iterate_, solveMasterEquation_")],["Cluster::getProbabilityOfOccupyingInternalSite"],[("probabilityOnSite_","occupation probability per member","Cluster")])
p("C16","Cluster exit and internal picks follow the current normalised distributions",
 "After an update, the probability of leaving a cluster to an outside neighbor is proportional to the sum over members of occupation probability times that member's hop probability to it, the probabilities over all outside neighbors of the members add up to one, and each such neighbor is listed exactly once and nothing else is. An exit pick for a random number u returns the neighbor whose cumulative interval contains u and an internal pick returns the member whose cumulative interval of (occupation probability times member time constant, normalised) contains u. After any number of repeated updates the picks use only the latest distributions.",
 ["inputs","histories","configurations"],"all clusters, random numbers in [0,1) and sequences of updates",
 "Tests sample picks and compare with tolerance; stale or duplicated cumulative entries only show for rare random numbers or after repeated updates.",
 CL,[("normalise, sort, accumulate","calculateProbabilityHopToNeighbors_, calculateProbabilityHopToInternalSite_, pickClusterNeighbor_, pickInternalSite_")],["Cluster::getProbabilityOfHoppingToNeighborOfCluster","Cluster::getSiteIdsNeighboringCluster","Cluster::pickNewSiteId"],[("cumulitive_probabilityHopTo*","cumulative distributions","Cluster")])
p("C17","Cluster escape time constant, increment and resolution stay consistent",
 "After an update the escape time constant of a cluster is the average, over members with a rate out of the cluster, of the reciprocal of their total outward rate, weighted by (occupation probability times outward rate times member time constant) normalised over the members; it is positive, and a cluster without any outward rate has it marked undefined. The time increment always equals the escape time constant divided by the resolution, immediately after an update and immediately after the resolution is set; the fastest rate off the cluster is the largest rate from a member to a non-member.",
 ["inputs","histories","configurations"],"all clusters, resolutions >= 2 and sequences of updates and resolution changes",
 "Tests check one or two time constants with tolerance; the weighted sums range over clusters of any size.",
 CL,[("weighted average of reciprocal outward rates","calculateProbabilityHopOffInternalSite_, calculateSumOfEscapeRatesFromSitesToTheirNeighbors_, calculateEscapeTimeConstant_, setResolution")],["Cluster::getTimeConstant","Cluster::getTimeIncrement","Cluster::getResolution","Cluster::getFastestRateOffCluster"])
p("C18","Cluster dwell time is delivered in increments that add up",
 "A walker entering a cluster draws one exponential dwell time; successive dwell-time requests hand it out in pieces of the time increment with the final piece the remainder, so the pieces add up to the drawn time. While time remains after a request the walker hops to a member of the cluster; once it is used up the next pick leaves the cluster, to an outside neighbor, and forgets the walker. Requests of different walkers do not affect each other.",
 ["histories","inputs"],"all walkers, drawn times, increments and sequences of requests",
 "Tests make a few calls with one walker; the accounting is an invariant over unbounded histories and several walkers.",
 CL,[("remaining dwell time per walker","Cluster::getDwellTime, hopWithinCluster_, pickNewSiteId, pickClusterNeighbor_")],["Cluster::getDwellTime","Cluster::pickNewSiteId"],[("remaining_walker_dwell_times_","time left per walker","Cluster")])
p("C19","Building and merging clusters loses no site",
 "Adding a site to a cluster makes exactly that site a member, marks it with the cluster's id and is refused for a site that is already a member; adding several sites adds all of them. Merging another cluster into this one makes every member of the other a member of this one, marked with this cluster's id, keeps the previous members, leaves the other cluster empty and undefined, and updates this cluster's probabilities and time constant. Member queries list every member exactly once, and no two clusters are created with the same id.",
 ["inputs","histories"],"all pairs of clusters and member sets",
 "Tests merge one pair of two-site clusters; conservation of members is a set equality over clusters of any size.",
 CL,[("map of members, move and clear","Cluster::addSite, addSites, migrateSitesFrom, getSiteIdsInCluster, getSitesInCluster, siteIsInCluster")],["Cluster::addSite","Cluster::addSites","Cluster::migrateSitesFrom","Cluster::siteIsInCluster","Cluster::getSiteIdsInCluster"])
p("C20","Cluster visit counts are conserved by queries, updates and merges",
 "The visit count of a member is what was last set plus, for the cluster visits made since, the rounded share given by (visits times occupation probability times member time constant times escape time constant) over (member internal dwell time times resolution), added once when any member is next queried; querying again without new cluster visits returns the same number. An update keeps the visit counts of all members and starts new members at zero; merging carries over the counts of the merged members. Queries for sites that are not members are refused.",
 ["histories","inputs"],"all sequences of visits, queries, updates and merges",
 "Tests query one value after one occupation; double counting or loss appears only in particular histories.",
 CL,[("lazy conversion of cluster visits to member visits","Cluster::getVisitFrequency, setVisitFrequency, getVisitFrequencies_, updateProbabilitiesAndTimeConstant, migrateSitesFrom")],["Cluster::getVisitFrequency","Cluster::setVisitFrequency"],[("site_visits_","visits per member","Cluster")])
p("C21","The rate container returns exactly the rates it was given",
 "Every rate added can be read back unchanged under its source and target, adding a rate that is already there or reading one that was never added is refused, and no query changes what is stored. The incoming and outgoing rate maps and counts of a site contain exactly the rates to and from it. Sources are exactly the sites with outgoing but no incoming rates and sinks exactly those with incoming but no outgoing rates, each listed once.",
 ["inputs","histories"],"all rate maps of any size and all sequences of operations",
 "Tests use graphs of a few sites; exactness is a set equality over any graph, and hidden insertion by a query is invisible to a single lookup.",
 [L+"rate_container.cpp",L+"rate_container.hpp"],[("nested map","Rate_Container::*")],["Rate_Container::*"],[("rates_","source -> target -> rate","Rate_Container")])
p("C22","The site container returns exactly the sites it was given",
 "Every site added is found under its id with the rates and status it had, adding a site twice or asking for an unknown site is refused, and queries neither add nor alter sites. Occupying, vacating or assigning a cluster id affects exactly the named site, and per-site queries (occupied, dwell time, time constant, fastest rate, rate to a neighbor, neighbors, cluster id) answer for exactly that site. The smallest-cluster query returns the smallest cluster id among the named sites that belong to a cluster, or unassigned when none does.",
 ["inputs","histories"],"all containers of any size, all ids and sequences of operations",
 "Tests use one to three sites; frame conditions and minimum over any list are not sampled.",
 [L+"site_container.cpp",L+"site_container.hpp"],[("map from id to site","Site_Container::*")],["Site_Container::*"],[("sites_","site by id","Site_Container")])
p("C23","The cluster container returns exactly the clusters it was given",
 "Every cluster added is found under its id, adding one twice or asking for, occupying or vacating an unknown one is refused, erasing removes exactly that cluster and does nothing for an unknown id, and queries neither add nor alter clusters. Per-cluster queries (occupied, dwell time of a walker, time constant, fastest rate, neighboring sites) answer for exactly the named cluster. The overview queries (ids, resolutions, time increments, member sites) have exactly one correct entry for every stored cluster.",
 ["inputs","histories"],"all containers of any size, all ids and sequences of operations",
 "Tests use one or two clusters; exactness of the overview maps and frame conditions range over any container.",
 [L+"cluster_container.cpp",L+"cluster_container.hpp"],[("map from id to cluster","Cluster_Container::*")],["Cluster_Container::*"],[("clusters_","cluster by id","Cluster_Container")])
p("C24","Coarse graining a system preserves sites, walkers and rates",
 "Initialising a coarse-grained system registers every site with exactly the given rates, hopping a walker moves it to a neighbor that is unoccupied or keeps it where it is, and coarse graining never changes which sites exist or the rates between them.",
 ["inputs","histories","configurations"],"all systems, walkers and hop histories",
 "The code needs the UGLY graph library, which is absent here, so no test of it is even built.",
 [L+"coarsegrainsystem.cpp",L+"basin_explorer.cpp",L+"graph_library_adapter.cpp"],[("CoarseGrainSystem hop and coarse-grain loop",L+"coarsegrainsystem.cpp")],["CoarseGrainSystem::*"])
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
