RH='include/opengv/sac/implementation/Ransac.hpp'; MR='include/opengv/sac/implementation/MultiRansac.hpp'; LM='include/opengv/sac/implementation/Lmeds.hpp'
SP='include/opengv/sac/implementation/SampleConsensusProblem.hpp'; MSP='include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp'
SPH='include/opengv/sac/SampleConsensusProblem.hpp'
ALL=['S01','S02','S03','S04','S05','S06','S07']
M=[
# S05
('sel-position','S05',[(SP,'inliers.push_back( (*indices_)[i] );','inliers.push_back( (int) i );')]),
('sel-noclear','S05',[(SP,'  inliers.clear();\n  inliers.reserve(indices_->size());','  inliers.reserve(indices_->size());')]),
('sel-early','S05',[(SP,'    if( dist[i] < threshold )\n      inliers.push_back','    if( !(dist[i] < threshold) ) { if( i > 0 && dist[i-1] > 2 ) break; else continue; }\n      inliers.push_back')]),
('cnt-abs','S05',[(SP,'    if( dist[i] < threshold )\n      ++count;','    if( fabs(dist[i]) < threshold )\n      ++count;')]),
('cnt-le','S05',[(SP,'    if( dist[i] < threshold )\n      ++count;','    if( dist[i] <= threshold )\n      ++count;')]),
('cnt-float','S05',[(SP,'    if( dist[i] < threshold )\n      ++count;','    if( (float) dist[i] < threshold )\n      ++count;')]),
('cnt-from1','S05',[(SP,'  int count = 0;\n  for( size_t i = 0;','  int count = 0;\n  for( size_t i = count;')] if 0 else [(SP,'  int count = 0;\n  for( size_t i = 0;','  int count = 0;\n  for( size_t i = 1;')]),
('msel-frame0','S05',[(MSP,'inliers[j].push_back( (*indices_)[j][i] );','inliers[j].push_back( (*indices_)[0][i] );')]),
('mcnt-last','S05',[(MSP,'  int count = 0;\n  for( size_t j = 0; j < indices_->size(); j++ )\n  {','  int count = 0;\n  for( size_t j = 0; j < indices_->size(); j++ )\n  {\n    count = 0;')]),
('mcnt-skipempty','',[(MSP,'  int count = 0;\n  for( size_t j = 0; j < indices_->size(); j++ )\n  {','  int count = 0;\n  for( size_t j = 0; j < indices_->size(); j++ )\n  {\n    if( dist[j].empty() ) continue;')]),
('mcnt-breakempty','S05',[(MSP,'  int count = 0;\n  for( size_t j = 0; j < indices_->size(); j++ )\n  {','  int count = 0;\n  for( size_t j = 0; j < indices_->size(); j++ )\n  {\n    if( dist[j].empty() ) break;')]),
('msel-shape','S05',[(MSP,'  inliers.clear();\n  inliers.resize(indices_->size());','  inliers.resize(indices_->size());'),(MSP,'    inliers[j].clear();\n','')]),
('msel-clearonce','',[(MSP,'    inliers[j].clear();\n','')]),
('sel-scale','S05',[(SP,'    if( dist[i] < threshold )\n      inliers','    if( dist[i]*dist[i] < threshold*threshold )\n      inliers')]),
# refactor S05
('r-countif','',[(SP,'''  int count = 0;
  for( size_t i = 0; i < dist.size(); ++i )
  {
    if( dist[i] < threshold )
      ++count;
  }

  return count;''','''  int count = 0;
  for( const double d : dist )
    count += d < threshold ? 1 : 0;
  return count;''')]),
('r-countif2','',[(SP,'''  int count = 0;
  for( size_t i = 0; i < dist.size(); ++i )
  {
    if( dist[i] < threshold )
      ++count;
  }

  return count;''','''  return (int) std::count_if( dist.begin(), dist.end(), [threshold]( double d ) { return d < threshold; } );'''),(SP,'#include <functional>','#include <functional>\n#include <algorithm>')]),
('r-viaselect','',[(SP,'''  std::vector<double> dist;
  dist.reserve(indices_->size());
  getDistancesToModel( model_coefficients, dist );

  int count = 0;
  for( size_t i = 0; i < dist.size(); ++i )
  {
    if( dist[i] < threshold )
      ++count;
  }

  return count;''','''  std::vector<int> inliers;
  selectWithinDistance( model_coefficients, threshold, inliers );
  return static_cast<int>( inliers.size() );''')]),
('r-sel-continue','',[(SP,'''    if( dist[i] < threshold )
      inliers.push_back( (*indices_)[i] );''','''    if( !(dist[i] < threshold) )
      continue;
    const int index = indices_->at(i);
    inliers.push_back( index );''')]),
('r-msel-local','',[(MSP,'''    for(size_t i = 0; i < dist[j].size(); ++i)
    {
      if( dist[j][i] < threshold )
        inliers[j].push_back( (*indices_)[j][i] );
    }''','''    const std::vector<double> & d = dist[j];
    std::vector<int> & in = inliers[j];
    for(size_t i = 0; i < d.size(); ++i)
    {
      if( threshold > d[i] )
        in.push_back( (*indices_)[j][i] );
    }''')]),
('r-msel-while','',[(MSP,'''  int count = 0;
  for( size_t j = 0; j < indices_->size(); j++ )
  {
    for( size_t i = 0; i < dist[j].size(); ++i )
    {
      if( dist[j][i] < threshold )
        ++count;
    }
  }
''','''  int count = 0;
  size_t j = 0;
  while( j < indices_->size() )
  {
    size_t i = 0;
    while( i < dist[j].size() )
    {
      if( dist[j][i] < threshold )
        count++;
      i++;
    }
    j++;
  }
''')]),
# S06
('draw-mod','S06',[(SP,'shuffled_indices_[i + (rnd() % (index_size - i))] );','shuffled_indices_[(i + rnd()) % index_size] );')] ),
('draw-nofirst','S06',[(SP,'shuffled_indices_[i + (rnd() % (index_size - i))] );','shuffled_indices_[i + 1 + (rnd() % (index_size - i - 1))] );')]),
('draw-samplesize','S06',[(SP,'(rnd() % (index_size - i))','(rnd() % (sample_size - i))')]),
('draw-short','S06',[(SP,'for( unsigned int i = 0; i < sample_size; ++i )','for( unsigned int i = 0; i + 1 < sample_size; ++i )')]),
('draw-copyoff','S06',[(SP,'      shuffled_indices_.begin(),\n      shuffled_indices_.begin() + sample_size,','      shuffled_indices_.begin() + 1,\n      shuffled_indices_.begin() + sample_size + 1,')]),
('get-le','S06',[(SP,'if (indices_->size() < (size_t)getSampleSize())','if (indices_->size() <= (size_t)getSampleSize())')]),
('get-resize1','S06',[(SP,'samples.resize( getSampleSize() );','if( samples.size() < (size_t) getSampleSize() ) samples.resize( getSampleSize() );')]),
('get-isgood','S06',[(SP,'''    if(isSampleGood(samples))
      return;''','''    if(isSampleGood(samples) || iter == max_sample_checks_ - 1 )
      return;''')]),
('get-noiter','S06',[(SP,'    iterations = std::numeric_limits<int>::max();\n','')]),
('uni-1','S06',[(SP,'(*indices_)[i] = i;','(*indices_)[i] = i + 1;')]),
('uni-noshuf','S06',[(SP,'    (*indices_)[i] = i;\n  shuffled_indices_ = *indices_;','    (*indices_)[i] = i;\n  if( shuffled_indices_.size() != indices_->size() )\n    shuffled_indices_ = *indices_;')]),
('mset-stale','S06',[(MSP,'new std::vector<std::vector<int> >(indices) );\n    shuffled_indices_ = *indices_;','new std::vector<std::vector<int> >(indices) );\n    shuffled_indices_.resize( indices.size() );\n    for( size_t j = 0; j < indices.size(); j++ ) if( shuffled_indices_[j].empty() ) shuffled_indices_[j] = indices[j];')]),
('mdraw-first','S06',[(MSP,'size_t index_size = shuffled_indices_[subIter].size();','size_t index_size = shuffled_indices_[0].size();')]),
('mget-sizes','S06',[(MSP,'samples[subIter].resize( sampleSizes[subIter] );','samples[subIter].resize( sampleSizes[0] );')]),
('muni','S06',[(MSP,'for( int i = 0; i < N[j]; ++i )\n      (*indices_)[j][i] = i;','for( int i = 0; i < N[0]; ++i )\n      (*indices_)[j][i] = i;')]),
('r-draw-ref','',[(SP,'''    std::swap(
        shuffled_indices_[i],
        shuffled_indices_[i + (rnd() % (index_size - i))] );''','''    const size_t remaining = index_size - i;
    const size_t j = i + rnd() % remaining;
    const int tmp = shuffled_indices_[i];
    shuffled_indices_[i] = shuffled_indices_[j];
    shuffled_indices_[j] = tmp;''')]),
('r-draw-loopcopy','',[(SP,'''  std::copy(
      shuffled_indices_.begin(),
      shuffled_indices_.begin() + sample_size,
      sample.begin() );''','''  for( size_t i = 0; i < sample_size; ++i )
    sample[i] = shuffled_indices_[i];''')]),
('r-draw-assign','',[(SP,'''  std::copy(
      shuffled_indices_.begin(),
      shuffled_indices_.begin() + sample_size,
      sample.begin() );''','''  sample.assign( shuffled_indices_.begin(), shuffled_indices_.begin() + sample_size );''')]),
('r-draw-fused','',[(SP,'''        shuffled_indices_[i + (rnd() % (index_size - i))] );
  }
  std::copy(
      shuffled_indices_.begin(),
      shuffled_indices_.begin() + sample_size,
      sample.begin() );''','''        shuffled_indices_[i + (rnd() % (index_size - i))] );
    sample[i] = shuffled_indices_[i];
  }''')]),
('r-mdraw-fused','',[(MSP,'''          shuffled_indices_[subIter][i + (rnd() % (index_size - i))] );
    }
    std::copy(
        shuffled_indices_[subIter].begin (),
        shuffled_indices_[subIter].begin () + sample_size,
        sample[subIter].begin () );''','''          shuffled_indices_[subIter][i + (rnd() % (index_size - i))] );
      sample[subIter][i] = shuffled_indices_[subIter][i];
    }''')]),
('draw-fused-early','S06',[(SP,'''    std::swap(
        shuffled_indices_[i],
        shuffled_indices_[i + (rnd() % (index_size - i))] );
  }
  std::copy(
      shuffled_indices_.begin(),
      shuffled_indices_.begin() + sample_size,
      sample.begin() );''','''    sample[i] = shuffled_indices_[i];
    std::swap(
        shuffled_indices_[i],
        shuffled_indices_[i + (rnd() % (index_size - i))] );
  }''')]),
('get-good-redraw','S06',[(SP,'''    if(isSampleGood(samples))
      return;''','''    if(isSampleGood(samples))
    {
      if( iter > 0 ) drawIndexSample(samples);
      return;
    }''')]),
('r-get-size','',[(SP,'  if (indices_->size() < (size_t)getSampleSize())','  const size_t needed = (size_t) getSampleSize();\n  if ( needed > indices_->size() )'),(SP,'samples.resize( getSampleSize() );','samples.resize( needed );')]),
('r-get-while','',[(SP,'''  for( int iter = 0; iter < max_sample_checks_; ++iter )
  {
    drawIndexSample(samples);

    // If it's a good sample, stop here
    if(isSampleGood(samples))
      return;
  }''','''  int iter = 0;
  bool good = false;
  while( !good && iter < max_sample_checks_ )
  {
    drawIndexSample(samples);
    good = isSampleGood(samples);
    ++iter;
  }
  if( good )
    return;''')]),
('r-uni-push','',[(SP,'''  indices_->resize(N);
  for( int i = 0; i < N; ++i )
    (*indices_)[i] = i;''','''  indices_->reserve(N);
  for( int i = 0; i < N; ++i )
    indices_->push_back(i);''')]),
('r-uni-iota','',[(SP,'''  indices_->resize(N);
  for( int i = 0; i < N; ++i )
    (*indices_)[i] = i;''','''  indices_->resize(N);
  std::iota( indices_->begin(), indices_->end(), 0 );'''),(SP,'#include <functional>','#include <functional>\n#include <numeric>\n#include <algorithm>')]),
('r-uni-set','',[(SP,'''  indices_.reset( new std::vector<int>() );
  indices_->resize(N);
  for( int i = 0; i < N; ++i )
    (*indices_)[i] = i;
  shuffled_indices_ = *indices_;''','''  std::vector<int> all(N);
  for( int i = 0; i < N; ++i )
    all[i] = i;
  setIndices( all );''')]),
('r-set-make','',[(SP,'''  indices_.reset( new std::vector<int>(indices) );
  shuffled_indices_ = *indices_;''','''  indices_ = std::make_shared< std::vector<int> >( indices );
  shuffled_indices_ = indices;''')]),
# S01-S04 in Multi/Lmeds
('mr-k-first','S04',[(MR,'multiIndicesNumber += multiIndices->at(multiIter).size();','multiIndicesNumber = multiIndices->at(multiIter).size();')]),
('mr-k-clampeps','S04',[(MR,'(std::max) (std::numeric_limits<double>::epsilon(), p_no_outliers);','(std::max) (std::numeric_limits<float>::epsilon(), (float) p_no_outliers);')]),
('mr-k-w','S04',[(MR,'double w = static_cast<double> (n_best_inliers_count) /','double w = static_cast<double> (n_inliers_count + 1) /')]),
('mr-sel-thr','S01',[(MR,'sac_model_->selectWithinDistance( model_coefficients_, threshold_, inliers_ );','sac_model_->selectWithinDistance( model_coefficients, threshold_, inliers_ );')]),
('mr-model-sel','S01',[(MR,'model_              = selection;','model_.resize( selection.size() ); for( size_t s = 0; s < selection.size(); s++ ) if( model_[s].empty() ) model_[s] = selection[s];')]),
('mr-keepinl','S02',[(MR,'  model_.clear();\n  inliers_.clear();','  model_.clear();'),(MR,'    inliers_.clear();\n    return (false);','    return (false);')]),
('mr-skipiter','S03',[(MR,'      ++ skipped_count;\n      continue;','      if( n_best_inliers_count < 0 ) ++ skipped_count;\n      continue;')]),
('mr-maxskip','S03',[(MR,'max_iterations_ * 10','max_iterations_ * 100')]),
('lm-mid','S01',[(LM,'(distances[mid-1] + distances[mid]) / 2','(distances[mid] + distances[mid+1]) / 2')]),
('lm-square-order','S01',[(LM,'    	if (distances[i] < 0) {\n    		distances[i] = 0;\n    	}\n','')]),
('lm-le','S01',[(LM,'if(d_cur_penalty < d_best_penalty)','if(d_cur_penalty <= d_best_penalty)')]),
('lm-coeff','S01',[(LM,'  distances.clear();\n  sac_model_->getDistancesToModel(model_coefficients_, distances);','  distances.clear();\n  sac_model_->getDistancesToModel(model_coefficients, distances);')]),
('lm-nofinal','S01',[(LM,'  distances.clear();\n  sac_model_->getDistancesToModel(model_coefficients_, distances);','')]),
('lm-bestbefore','S03',[(LM,'    if (distances.empty ())\n    {\n        ++skipped_count;','    if (distances.empty ())\n    {')]),
('lm-inlpos','S01',[(LM,'= indices[i];','= (int) i;')]),
('lm-noresize','S01',[(LM,'  inliers_.resize(n_inliers_count);\n','')]),
('r-lm-push','',[(LM,'''  inliers_.resize(distances.size());
  // Get the inliers for the best model found
  n_inliers_count = 0;''','''  n_inliers_count = 0;'''),(LM,'		  inliers_[n_inliers_count++] = indices[i];','	  {\n		  inliers_.push_back( indices[i] );\n		  n_inliers_count++;\n	  }'),(LM,'  inliers_.resize(n_inliers_count);\n','')]),
('r-lm-nth','',[(LM,'''    if (sac_model_->getIndices()->size() % 2 == 0) {
        d_cur_penalty = (distances[mid-1] + distances[mid]) / 2;
    } else {
		d_cur_penalty = distances[mid];
    }''','''    const bool even = sac_model_->getIndices()->size() % 2 == 0;
    d_cur_penalty = even ? 0.5 * (distances[mid-1] + distances[mid]) : distances[mid];''')]),
('r-lm-max','',[(LM,'''    	if (distances[i] < 0) {
    		distances[i] = 0;
    	}
    	distances[i] = distances[i] * distances[i];''','''    	const double d = std::max( distances[i], 0.0 );
    	distances[i] = d * d;''')]),
('r-mr-helper','',[(MR,'''      size_t multiIndicesNumber = 0;
      for( size_t multiIter = 0; multiIter < multiIndices->size(); multiIter++ )
        multiIndicesNumber += multiIndices->at(multiIter).size();
''','''      size_t multiIndicesNumber = 0;
      for( const std::vector<int> & frame : *multiIndices )
        multiIndicesNumber += frame.size();
''')]),
('r-mr-negate','',[(MR,'''    if(!sac_model_->computeModelCoefficients( selection, model_coefficients ))
    {
      //++iterations_;
      ++ skipped_count;
      continue;
    }
''','''    const bool valid = sac_model_->computeModelCoefficients( selection, model_coefficients );
    if( !valid )
    {
      skipped_count += 1;
      continue;
    }
''')]),
]
