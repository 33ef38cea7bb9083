# coding=utf-8
"""What scikit-learn support promises for each class: {class name: (short name, parameters irrelevant for the results)}.

A snapshot independent of the tables in the code under test. Classes that are not here use their own name and all
their parameters are relevant.
"""
TABLE = {
    'ARDRegression': ('ardr', ('copy_X', 'verbose')),
    'AdaBoostClassifier': ('AdaBoostClassifier', ()),
    'AdaBoostRegressor': ('AdaBoostRegressor', ()),
    'AdditiveChi2Sampler': ('AdditiveChi2Sampler', ()),
    'AffinityPropagation': ('AffinityPropagation', ('copy', 'verbose')),
    'AgglomerativeClustering': ('AgglomerativeClustering', ('memory',)),
    'BaggingClassifier': ('BaggingClassifier', ('n_jobs', 'oob_score', 'verbose')),
    'BaggingRegressor': ('BaggingRegressor', ('n_jobs', 'oob_score', 'verbose')),
    'BayesianGaussianMixture': ('BayesianGaussianMixture', ('verbose', 'verbose_interval')),
    'BayesianRidge': ('bayridge', ('copy_X', 'verbose')),
    'BernoulliNB': ('bnb', ()),
    'BernoulliRBM': ('BernoulliRBM', ('verbose',)),
    'Binarizer': ('Binarizer', ('copy',)),
    'Birch': ('Birch', ('copy', 'compute_labels')),
    'CCA': ('cca', ('copy',)),
    'CalibratedClassifierCV': ('CalibratedClassifierCV', ()),
    'ClassifierChain': ('ClassifierChain', ()),
    'CompoundKernel': ('CompoundKernel', ()),
    'ConstantKernel': ('ConstantKernel', ()),
    'CountVectorizer': ('CountVectorizer', ()),
    'DBSCAN': ('DBSCAN', ('n_jobs',)),
    'DecisionTreeClassifier': ('dtc', ()),
    'DecisionTreeRegressor': ('dtr', ()),
    'DictVectorizer': ('DictVectorizer', ()),
    'DictionaryLearning': ('DictionaryLearning', ('n_jobs', 'verbose')),
    'DotProduct': ('DotProduct', ()),
    'DummyClassifier': ('DummyClassifier', ()),
    'DummyRegressor': ('DummyRegressor', ()),
    'ElasticNet': ('elnet', ('copy_X',)),
    'ElasticNetCV': ('elnetcv', ('copy_X', 'n_jobs', 'verbose')),
    'EllipticEnvelope': ('EllipticEnvelope', ('store_precision',)),
    'EmpiricalCovariance': ('EmpiricalCovariance', ()),
    'ExpSineSquared': ('ExpSineSquared', ()),
    'Exponentiation': ('Exponentiation', ()),
    'ExtraTreeClassifier': ('ExtraTreeClassifier', ()),
    'ExtraTreeRegressor': ('ExtraTreeRegressor', ()),
    'ExtraTreesClassifier': ('etc', ('n_jobs', 'oob_score', 'verbose')),
    'ExtraTreesRegressor': ('etr', ('n_jobs', 'oob_score', 'verbose')),
    'FactorAnalysis': ('FactorAnalysis', ('copy',)),
    'FastICA': ('FastICA', ()),
    'FeatureAgglomeration': ('FeatureAgglomeration', ('memory',)),
    'FeatureHasher': ('FeatureHasher', ()),
    'FeatureUnion': ('FeatureUnion', ('n_jobs',)),
    'FunctionTransformer': ('FunctionTransformer', ()),
    'GaussianMixture': ('GaussianMixture', ('verbose', 'verbose_interval')),
    'GaussianNB': ('gnb', ()),
    'GaussianProcessClassifier': ('gpc', ('copy_X_train', 'n_jobs')),
    'GaussianProcessRegressor': ('gpr', ('copy_X_train',)),
    'GaussianRandomProjection': ('GaussianRandomProjection', ()),
    'GenericUnivariateSelect': ('GenericUnivariateSelect', ()),
    'GradientBoostingClassifier': ('gbc', ('verbose',)),
    'GradientBoostingRegressor': ('gbr', ('verbose',)),
    'GraphLasso': ('GraphLasso', ('verbose',)),
    'GraphLassoCV': ('GraphLassoCV', ('n_jobs', 'verbose')),
    'GridSearchCV': ('GridSearchCV', ('error_score', 'n_jobs', 'pre_dispatch', 'refit', 'return_train_score', 'verbose')),
    'GroupKFold': ('GroupKFold', ()),
    'GroupShuffleSplit': ('GroupShuffleSplit', ()),
    'HashingVectorizer': ('HashingVectorizer', ()),
    'HuberRegressor': ('HuberRegressor', ()),
    'Imputer': ('Imputer', ('copy', 'verbose')),
    'IncrementalPCA': ('IncrementalPCA', ('copy',)),
    'IsolationForest': ('IsolationForest', ('n_jobs', 'verbose')),
    'Isomap': ('Isomap', ('n_jobs',)),
    'IsotonicRegression': ('IsotonicRegression', ()),
    'KFold': ('KFold', ()),
    'KMeans': ('KMeans', ('copy_x', 'n_jobs', 'precompute_distances', 'verbose')),
    'KNeighborsClassifier': ('knc', ('n_jobs',)),
    'KNeighborsRegressor': ('knr', ('n_jobs',)),
    'KernelCenterer': ('KernelCenterer', ()),
    'KernelDensity': ('KernelDensity', ()),
    'KernelPCA': ('KernelPCA', ('copy_X', 'n_jobs')),
    'KernelRidge': ('KernelRidge', ()),
    'LabelBinarizer': ('LabelBinarizer', ()),
    'LabelEncoder': ('LabelEncoder', ()),
    'LabelPropagation': ('LabelPropagation', ('n_jobs',)),
    'LabelSpreading': ('LabelSpreading', ('n_jobs',)),
    'Lars': ('lars', ('copy_X', 'fit_path', 'verbose')),
    'LarsCV': ('larscv', ('copy_X', 'fit_path', 'n_jobs', 'verbose')),
    'Lasso': ('lasso', ('copy_X',)),
    'LassoCV': ('lassocv', ('copy_X', 'n_jobs', 'verbose')),
    'LassoLars': ('lassolars', ('copy_X', 'fit_path', 'verbose')),
    'LassoLarsCV': ('lassolarscv', ('copy_X', 'fit_path', 'n_jobs', 'verbose')),
    'LassoLarsIC': ('lassolarsic', ('copy_X', 'verbose')),
    'LatentDirichletAllocation': ('LatentDirichletAllocation', ('n_jobs', 'verbose')),
    'LeaveOneGroupOut': ('LeaveOneGroupOut', ()),
    'LeaveOneOut': ('LeaveOneOut', ()),
    'LeavePGroupsOut': ('LeavePGroupsOut', ()),
    'LeavePOut': ('LeavePOut', ()),
    'LedoitWolf': ('LedoitWolf', ()),
    'LinearDiscriminantAnalysis': ('LinearDiscriminantAnalysis', ('store_covariance',)),
    'LinearRegression': ('linreg', ('copy_X', 'n_jobs')),
    'LinearSVC': ('linsvc', ('verbose',)),
    'LinearSVR': ('linsvr', ('verbose',)),
    'LocalOutlierFactor': ('lof', ('n_jobs',)),
    'LocallyLinearEmbedding': ('LocallyLinearEmbedding', ('n_jobs', 'neighbors_algorithm')),
    'LogisticRegression': ('logreg', ('n_jobs', 'verbose')),
    'LogisticRegressionCV': ('logregcv', ('n_jobs', 'verbose')),
    'MDS': ('MDS', ('n_jobs', 'verbose')),
    'MLPClassifier': ('MLPClassifier', ('verbose',)),
    'MLPRegressor': ('MLPRegressor', ('verbose',)),
    'Matern': ('Matern', ()),
    'MaxAbsScaler': ('MaxAbsScaler', ('copy',)),
    'MeanShift': ('MeanShift', ('n_jobs',)),
    'MinCovDet': ('MinCovDet', ()),
    'MinMaxScaler': ('MinMaxScaler', ('copy',)),
    'MiniBatchDictionaryLearning': ('MiniBatchDictionaryLearning', ('n_jobs', 'verbose')),
    'MiniBatchKMeans': ('MiniBatchKMeans', ('compute_labels', 'verbose')),
    'MiniBatchSparsePCA': ('MiniBatchSparsePCA', ('callback', 'n_jobs', 'verbose')),
    'MultiLabelBinarizer': ('MultiLabelBinarizer', ()),
    'MultiOutputClassifier': ('MultiOutputClassifier', ('n_jobs',)),
    'MultiOutputRegressor': ('MultiOutputRegressor', ('n_jobs',)),
    'MultiTaskElasticNet': ('MultiTaskElasticNet', ('copy_X',)),
    'MultiTaskElasticNetCV': ('MultiTaskElasticNetCV', ('copy_X', 'n_jobs', 'verbose')),
    'MultiTaskLasso': ('MultiTaskLasso', ('copy_X',)),
    'MultiTaskLassoCV': ('MultiTaskLassoCV', ('copy_X', 'n_jobs', 'verbose')),
    'MultinomialNB': ('mnb', ()),
    'NMF': ('NMF', ('verbose',)),
    'NearestCentroid': ('nc', ()),
    'NearestNeighbors': ('NearestNeighbors', ('n_jobs',)),
    'Normalizer': ('Normalizer', ('copy',)),
    'NuSVC': ('nusvc', ('cache_size', 'verbose')),
    'NuSVR': ('nusvr', ('cache_size', 'verbose')),
    'Nystroem': ('Nystroem', ()),
    'OAS': ('OAS', ()),
    'OneClassSVM': ('ocsvm', ('cache_size', 'verbose')),
    'OneHotEncoder': ('OneHotEncoder', ()),
    'OneVsOneClassifier': ('OneVsOneClassifier', ('n_jobs',)),
    'OneVsRestClassifier': ('OneVsRestClassifier', ('n_jobs',)),
    'OrthogonalMatchingPursuit': ('omp', ()),
    'OrthogonalMatchingPursuitCV': ('ompcv', ('copy', 'n_jobs', 'verbose')),
    'OutputCodeClassifier': ('OutputCodeClassifier', ('n_jobs',)),
    'PCA': ('PCA', ('copy',)),
    'PLSCanonical': ('plscan', ('copy',)),
    'PLSRegression': ('plsr', ('copy',)),
    'PLSSVD': ('plssvd', ('copy',)),
    'PairwiseKernel': ('PairwiseKernel', ()),
    'PassiveAggressiveClassifier': ('PassiveAggressiveClassifier', ('n_jobs', 'verbose')),
    'PassiveAggressiveRegressor': ('PassiveAggressiveRegressor', ('verbose',)),
    'PatchExtractor': ('PatchExtractor', ()),
    'Perceptron': ('perceptron', ('n_jobs', 'verbose')),
    'Pipeline': ('Pipeline', ('memory',)),
    'PolynomialFeatures': ('PolynomialFeatures', ()),
    'PredefinedSplit': ('PredefinedSplit', ()),
    'Product': ('Product', ()),
    'QuadraticDiscriminantAnalysis': ('QuadraticDiscriminantAnalysis', ('store_covariance',)),
    'QuantileTransformer': ('QuantileTransformer', ('copy',)),
    'RANSACRegressor': ('RANSACRegressor', ()),
    'RBF': ('RBF', ()),
    'RBFSampler': ('RBFSampler', ()),
    'RFE': ('RFE', ('verbose',)),
    'RFECV': ('RFECV', ('n_jobs', 'verbose')),
    'RadiusNeighborsClassifier': ('rnc', ()),
    'RadiusNeighborsRegressor': ('rnr', ()),
    'RandomForestClassifier': ('rfc', ('verbose', 'n_jobs', 'oob_score')),
    'RandomForestRegressor': ('rfr', ('verbose', 'n_jobs', 'oob_score')),
    'RandomTreesEmbedding': ('rte', ('verbose', 'n_jobs')),
    'RandomizedSearchCV': ('RandomizedSearchCV', ('error_score', 'n_jobs', 'pre_dispatch', 'refit', 'return_train_score', 'verbose')),
    'RationalQuadratic': ('RationalQuadratic', ()),
    'RepeatedStratifiedKFold': ('RepeatedStratifiedKFold', ()),
    'Ridge': ('ridge', ('copy_X',)),
    'RidgeCV': ('RidgeCV', ()),
    'RidgeClassifier': ('RidgeClassifier', ('copy_X',)),
    'RidgeClassifierCV': ('RidgeClassifierCV', ()),
    'RobustScaler': ('RobustScaler', ('copy',)),
    'SGDClassifier': ('sgdc', ('n_jobs', 'verbose')),
    'SGDRegressor': ('sgdr', ('verbose',)),
    'SVC': ('svc', ('cache_size', 'verbose')),
    'SVR': ('svr', ('cache_size', 'verbose')),
    'SelectFdr': ('SelectFdr', ()),
    'SelectFpr': ('SelectFpr', ()),
    'SelectFromModel': ('SelectFromModel', ()),
    'SelectFwe': ('SelectFwe', ()),
    'SelectKBest': ('SelectKBest', ()),
    'SelectPercentile': ('SelectPercentile', ()),
    'ShrunkCovariance': ('ShrunkCovariance', ()),
    'ShuffleSplit': ('ShuffleSplit', ()),
    'SkewedChi2Sampler': ('SkewedChi2Sampler', ()),
    'SparseCoder': ('SparseCoder', ('n_jobs',)),
    'SparsePCA': ('SparsePCA', ('n_jobs', 'verbose')),
    'SparseRandomProjection': ('SparseRandomProjection', ()),
    'SpectralBiclustering': ('SpectralBiclustering', ('n_jobs',)),
    'SpectralClustering': ('SpectralClustering', ('n_jobs',)),
    'SpectralCoclustering': ('SpectralCoclustering', ('n_jobs',)),
    'SpectralEmbedding': ('SpectralEmbedding', ('n_jobs',)),
    'StandardScaler': ('StandardScaler', ('copy',)),
    'StratifiedKFold': ('StratifiedKFold', ()),
    'StratifiedShuffleSplit': ('StratifiedShuffleSplit', ()),
    'Sum': ('Sum', ()),
    'TSNE': ('TSNE', ('verbose',)),
    'TfidfTransformer': ('TfidfTransformer', ()),
    'TfidfVectorizer': ('TfidfVectorizer', ()),
    'TheilSenRegressor': ('TheilSenRegressor', ('copy_X', 'n_jobs', 'verbose')),
    'TimeSeriesSplit': ('TimeSeriesSplit', ()),
    'TruncatedSVD': ('TruncatedSVD', ()),
    'VarianceThreshold': ('VarianceThreshold', ()),
    'VotingClassifier': ('VotingClassifier', ('n_jobs',)),
    'WhiteKernel': ('WhiteKernel', ()),
}
