; The functions whose contracts state each property (primary), and the
; functions these contracts are used with (deps)
(property C01 (primary evaluateAt Search Find ParseAndFind)
  (deps iterator.next iterator.item Sel.match Sel.selectChildNodes Expr.evaluate))
(property C02 (primary evaluateAt Search iterator.item)
  (deps iterator.next Sel.selectChildNodes Sel.match Expr.evaluate Find))
(property C03 (primary keySelector.match keySelector.selectChildNodes)
  (deps singleIterator.next singleIterator.item emptyIterator.next evaluateAt Expr.evaluate))
(property C04 (primary indexSelector.match indexSelector.selectChildNodes IndexSelectorPath)
  (deps singleIterator.next singleIterator.item emptyIterator.next evaluateAt Expr.evaluate unionSelector.match))
(property C05 (primary rangeSelector.match rangeSelector.selectChildNodes sliceSelector.match sliceSelector.selectChildNodes
    rangeIterator.next rangeIterator.item)
  (deps emptyIterator.next evaluateAt Expr.evaluate unionSelector.match))
(property C06 (primary evaluateAt)
  (deps iterator.next iterator.item Sel.match Sel.selectChildNodes))
(property C07 (primary wildcardSelector.match wildcardSelector.selectChildNodes rootElementSelector.match rootElementSelector.selectChildNodes
    currentElementSelector.match currentElementSelector.selectChildNodes unionSelector.match unionSelector.selectChildNodes)
  (deps Sel.match evaluateAt Expr.evaluate))
(property C08 (primary filterSelector.match filterSelector.selectChildNodes notExpression.evaluate filterExpression.evaluate)
  (deps Expr.evaluate evaluateAt))
(property C09 (primary pathExpression.evaluate rootElementSelector.match)
  (deps evaluateAt Sel.match Sel.selectChildNodes iterator.next iterator.item Expr.evaluate))
(property C10 (primary equalityExpression.evaluate equality3Expression.evaluate notExpression.evaluate)
  (deps exprValue.evaluate pathExpression.evaluate))
(property C11 (primary relationalExpression.evaluate compareExpr)
  (deps exprValue.evaluate pathExpression.evaluate astExpression))
(property C12 (primary addExpression.evaluate subExpression.evaluate mulExpression.evaluate divExpression.evaluate modExpression.evaluate
    powExpression.evaluate unaryMinusExpression.evaluate)
  (deps exprValue.evaluate pathExpression.evaluate))
(property C13 (primary landExpression.evaluate lorExpression.evaluate inExpression.evaluate arrayExpression.evaluate)
  (deps exprValue.evaluate equalityExpression.evaluate pathExpression.evaluate))
(property C14 (primary functionCallExpression.evaluate methodCallExpression.evaluate)
  (deps exprValue.evaluate pathExpression.evaluate filterSelector.match))
(property C21 (primary evaluateAt Search Find Sel.match Sel.selectChildNodes iterator.next iterator.item Expr.evaluate))
(property C20 (primary Append RecursiveDescent KeySelectorPath IndexSelectorPath init))
(property C24 (primary MapModel.Root MapModel.Type MapModel.Len MapModel.Key MapModel.Keys MapModel.Elem MapModel.Value))
(property C15 (primary unescapeString astLiteral)
  (deps astExpression astPath))
(property C16 (primary numericLiteral astLiteral)
  (deps astExpression astPath))
(property C17 (primary MakeKeyString Join)
  (deps unescapeString astLiteral astPath astSimplePath Parse keySelector.match keySelector.selectChildNodes evaluateAt))
(property C18 (primary astExpression astArgumentExpression astElementList)
  (deps Expr.evaluate astPath astLiteral Parse))
(property C19 (primary astPath astBracketedSelector astBracketedSelectorExpressions astBracketedExpressionSelector astSlice astSimplePath)
  (deps Parse astExpression Sel.match Sel.selectChildNodes evaluateAt))
(property C23 (primary Parse)
  (deps astPath astSimplePath))
(property C25 (kinds decreases) (primary *))
(property C22 (kinds safety requires) (primary *))
