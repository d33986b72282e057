R='include/opengv/sac/implementation/Ransac.hpp'
MR='include/opengv/sac/implementation/MultiRansac.hpp'
LM='include/opengv/sac/implementation/Lmeds.hpp'
ALL=['S01','S02','S03','S04']
M=[
('ge','S01',[(R,'if(n_inliers_count > n_best_inliers_count)','if(n_inliers_count >= n_best_inliers_count)')]),
('model-every-pass','S01',[(R,'      model_coefficients_ = model_coefficients;\n',''),(R,'    ++iterations_;\n    if','    model_coefficients_ = model_coefficients;\n    ++iterations_;\n    if')]),
('select-last','S01',[(R,'selectWithinDistance( model_coefficients_, ','selectWithinDistance( model_coefficients, ')]),
('select-last2','S01',[(MR,'selectWithinDistance( model_coefficients_, ','selectWithinDistance( model_coefficients, ')]),
('lmed-best-not-updated','S01',[(LM,'      d_best_penalty = d_cur_penalty;\n','')]),
('lmed-median','S01',[(LM,'/ 2;\n    if (mid','/ 2 + 0*1;\n    if (mid'),(LM,'(distances[mid-1] + distances[mid]) / 2','(distances[mid] + distances[mid]) / 2')]),
('lmed-noclear','S01 S03',[(LM,'    distances.clear();\n    sac','    sac')]),
('lmed-select-last','S01',[(LM,'getDistancesToModel(model_coefficients_, distances)','getDistancesToModel(model_coefficients, distances)')]),
('noclear','S02',[(R,'  model_.clear();\n','')]),
('noclear-inl','S02',[(LM,'  inliers_.clear();\n','')]),
('static-best','S02',[(R,'int n_best_inliers_count = -INT_MAX;','static int n_best_inliers_count = -INT_MAX;')]),
('threshold-changed','S02',[(R,'  iterations_ = 0;\n  model_','  threshold_ *= 1.0001;\n  iterations_ = 0;\n  model_')]),
('maxit','S03',[(R,'iterations_ >= max_iterations_','iterations_ > max_iterations_')]),
('skip-not-counted','S03',[(MR,'      ++ skipped_count;\n','')]),
('skip-condition','S03',[(MR,'&& skipped_count < max_skip','')]),
('lmed-skip','S03',[(LM,'    if (mid >= distances.size())\n    {\n        ++skipped_count;','    if (mid >= distances.size())\n    {\n        ')]),
('k-noinitial','S04',[(R,'double k = 1.0;','double k = 10.0;')]),
('k-sample','S04',[(R,'pow(w, static_cast<double> (selection.size()))','pow(w, static_cast<double> (selection.size()-1))')]),
('k-multi','S04',[(MR,'multiIndicesNumber += multiIndices->at(multiIter).size();','multiIndicesNumber += multiIndices->at(0).size();')]),
('k-prob','S04',[(R,'log(1.0 - probability_)','log(probability_)')]),
('k-lastcount','S04',[(R,'static_cast<double> (n_best_inliers_count) /','static_cast<double> (n_inliers_count+1) /')]),
('break-early','S04',[(R,'if(iterations_ >= max_iterations_)','if(iterations_ >= max_iterations_/2)')]),
# behaviour preserving
('r-for','',[(R,'  while( iterations_ < k && skipped_count < max_skip )\n','  for( ;; )\n'),(R,'    // Get X samples','    if( !(iterations_ < k) || skipped_count >= max_skip ) break;\n    // Get X samples')]),
('r-neg','',[(R,'''    if(!sac_model_->computeModelCoefficients( selection, model_coefficients ))
    {
      //++iterations_;
      ++ skipped_count;
      continue;
    }
''','''    const bool valid = sac_model_->computeModelCoefficients( selection, model_coefficients );
    if(valid == false)
    {
      skipped_count += 1;
      continue;
    }
''')]),
('r-best0','',[(R,'int n_best_inliers_count = -INT_MAX;','int n_best_inliers_count = -1;')]),
('r-order','',[(R,'      n_best_inliers_count = n_inliers_count;\n',''),(R,'      model_coefficients_ = model_coefficients;\n','      model_coefficients_ = model_coefficients;\n      n_best_inliers_count = n_inliers_count;\n')]),
('r-itfirst','',[(R,'    ++iterations_;\n    if',"    if"),(R,'    // Better match ?\n','    iterations_++;\n    // Better match ?\n')]),
('r-lmed-push','',[(LM,'inliers_.resize(distances.size());','inliers_.clear();'),(LM,'inliers_[n_inliers_count++] = indices[i];','{ inliers_.push_back(indices[i]); n_inliers_count++; }'),(LM,'  inliers_.resize(n_inliers_count);','')]),
('r-lmed-max','',[(LM,'''    	if (distances[i] < 0) {
    		distances[i] = 0;
    	}
    	distances[i] = distances[i] * distances[i];''','''      const double d = std::max(0.0, distances[i]);
      distances[i] = d * d;''')]),
('r-lmed-iter','',[(LM,'for (std::size_t i = 0; i < distances.size(); ++i) {','for (std::vector<double>::iterator it = distances.begin(); it != distances.end(); ++it) {'),
 (LM,'''    	if (distances[i] < 0) {
    		distances[i] = 0;
    	}
    	distances[i] = distances[i] * distances[i];''','''      if (*it < 0) *it = 0;
      *it = *it * *it;''')]),
('r-k-helper','',[(R,'#include <iostream>','#include <iostream>'),] if False else [(R,'''      double p_no_outliers = 1.0 - pow(w, static_cast<double> (selection.size()));
      p_no_outliers =
          (std::max) (std::numeric_limits<double>::epsilon(), p_no_outliers);
          // Avoid division by -Inf
      p_no_outliers =
          (std::min) (1.0 - std::numeric_limits<double>::epsilon(), p_no_outliers);
''','''      const double eps = std::numeric_limits<double>::epsilon();
      double p_no_outliers = 1.0 - pow(w, static_cast<double> (selection.size()));
      if (p_no_outliers < eps) p_no_outliers = eps;
      if (p_no_outliers > 1.0 - eps) p_no_outliers = 1.0 - eps;
''')]),
('r-multi-size','',[(MR,'''      size_t multiSelectionSize = 0;
      for( size_t multiIter = 0; multiIter < selection.size(); multiIter++ )
        multiSelectionSize += selection[multiIter].size();
''','''      size_t multiSelectionSize = 0;
      for( const std::vector<int> & s : selection )
        multiSelectionSize += s.size();
''')]),
]
